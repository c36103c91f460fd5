#include "drv_main.hpp"
CMD(ping) { return a; }
