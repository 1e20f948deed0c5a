#define CLI_N 1
#include "cli_one.inc"
