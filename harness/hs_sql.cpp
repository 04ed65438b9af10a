#include "drv_sql.cpp"
