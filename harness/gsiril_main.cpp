// gsiril's entry point, under another name so that the harness can call it
#define main gsiril_main
#include "apps/gsiril/main.cpp"
