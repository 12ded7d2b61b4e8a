set(CUDA_FOUND TRUE)
set(CUDA_INCLUDE_DIRS ${CMAKE_CURRENT_LIST_DIR}/../cuda ${CMAKE_CURRENT_LIST_DIR}/../../drv)
