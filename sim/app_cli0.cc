#define CLI_N 0
#include "cli_one.inc"
