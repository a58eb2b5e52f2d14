/* Two processes: one lends a CPU, the other one keeps borrowing until it gets it. However the calls interleave, a
 * borrow that starts after the lend has ended must find the CPU.
 * usage: lewi_ping seed rounds variant(0..3) key */
#include "vh.h"
extern "C" {
#include <dlb.h>
void mu_testing_set_sys(unsigned int, unsigned int, unsigned int);
}
#include <dlb_errors.h>
#include <atomic>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
struct Sh { std::atomic<int> turn; std::atomic<long> lent, got, tries; std::atomic<int> ready; };
static Sh *sh; static bool got;
static void en(int c, void *) { if (c == 1) got = true; }
static void dis(int, void *) {}
int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10); long rounds = atol(argv[2]); int var = atoi(argv[3]); const char *key = argv[4];
    mu_testing_set_sys(4, 4, 1);
    sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t kid = fork(); int me = kid == 0; rng_t R; R.s = seed * 2 + me;
    cpu_set_t m; CPU_ZERO(&m); CPU_SET(me ? 2 : 0, &m); CPU_SET(me ? 3 : 1, &m);
    std::string o = std::string("--lewi --quiet=yes --shm-key=") + key + (var & 1 ? " --lewi-affinity=nearby-only" : "");
    if (DLB_Init(0, &m, o.c_str())) HARNESS_ERROR("init");
    DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)en, 0); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)dis, 0);
    sh->ready++; while (sh->ready < 2) sched_yield();
    int rc = 0;
    for (long i = 0; i < rounds; i++) {
        if (!me) {
            for (int k = rnd(&R, 400); k > 0; k--) __asm__ volatile("");
            DLB_LendCpu(1); sh->lent = i + 1;
            double t0 = now_s(); while (sh->got < i + 1) { if (now_s() - t0 > 30) break; }
            if (sh->got < i + 1) { rc = 3; break; }
            DLB_ReclaimCpu(1);
        } else {
            got = false; long after = 0;
            while (!got) {
                bool lent = sh->lent > i;
                if (var & 2) DLB_BorrowCpus(2); else DLB_Borrow();
                sh->tries++;
                if (!got && lent && ++after > 0) { VIOL("L03/idle-cpu-missed", "round %ld: Borrow did not take a CPU that had been lent before the call", i); sh->got = rounds; rc = 0; goto out; }
            }
            DLB_LendCpu(1); sh->got = i + 1;
        }
    }
out:
    DLB_Finalize();
    if (me) _exit(rc);
    int st; waitpid(kid, &st, 0);
    emit("STAT ping_rounds=%ld ping_borrows=%ld", (long)sh->lent, (long)sh->tries);
    if (rc || st) return 1;
    emit("DONE"); return 0;
}
