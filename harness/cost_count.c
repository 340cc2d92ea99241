/* basic blocks executed so far, by the account that was open when they ran */
unsigned long libra_cost[5]; volatile int libra_account = 0;
void __sanitizer_cov_trace_pc(void) { libra_cost[libra_account]++; }
