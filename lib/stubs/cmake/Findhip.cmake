set(hip_FOUND TRUE)
set(HSA_HEADER ${CMAKE_CURRENT_LIST_DIR}/../hip ${CMAKE_CURRENT_LIST_DIR}/../../drv)
