/* Operating-system calls that would change the process: recorded, never carried out (both builds). */
unsigned pse_ruid = 1000, pse_euid = 1000, pse_suid = 0, pse_rgid = 1000, pse_egid = 1000, pse_sgid = 0; int pse_seteuid_calls = 0, pse_setegid_calls = 0;
unsigned geteuid(void) { return pse_euid; }
unsigned getegid(void) { return pse_egid; }
unsigned getuid(void) { return pse_ruid; }
unsigned getgid(void) { return pse_rgid; }
int seteuid(unsigned u) { ++pse_seteuid_calls; if (u == 0xFFFFFFFFu) return -1; if (pse_euid == 0 || u == pse_ruid || u == pse_suid) { pse_euid = u; return 0; } return -1; }
int setegid(unsigned g) { ++pse_setegid_calls; if (g == 0xFFFFFFFFu) return -1; if (pse_euid == 0 || g == pse_rgid || g == pse_sgid) { pse_egid = g; return 0; } return -1; }
