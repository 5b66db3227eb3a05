// methsearch's entry point, under another name so that the harness can call it
#define main methsearch_main
#include "apps/methsearch/main.cpp"
