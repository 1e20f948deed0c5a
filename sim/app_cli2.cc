#define CLI_N 2
#include "cli_one.inc"
