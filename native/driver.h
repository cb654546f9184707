#pragma once
#include <stdint.h>
void drv_exit(int c);
uint64_t drv_input(unsigned w);
void drv_finish(void);
void drv_heap(const char *lib);
extern int drv_running; // the entry under test is running: its calls are intercepted
