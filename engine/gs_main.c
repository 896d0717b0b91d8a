extern char __start_gs_funcs[] __attribute__((weak)), __stop_gs_funcs[] __attribute__((weak));
int gs_main(int, char**, void*, void*);
int main(int argc, char** argv) { return gs_main(argc, argv, __start_gs_funcs, __stop_gs_funcs); }
