/* Small C accessors for the C++ harnesses. */
#include "LB_core/spd.h"
int vh_spd_id(void *h) { return ((subprocess_descriptor_t*)h)->id; }
#include "LB_core/DLB_kernel.h"
void vh_into_blocking(void *h) { if (h) spd_enter_dlb(h); into_sync_call((sync_call_flags_t) { .is_mpi = true, .is_blocking = true, .do_lewi = true }); }
void vh_out_blocking(void *h) { if (h) spd_enter_dlb(h); out_of_sync_call((sync_call_flags_t) { .is_mpi = true, .is_blocking = true, .do_lewi = true }); }
#include "LB_core/DLB_talp.h"
void vh_talp_mpi_init(void) { spd_enter_dlb(thread_spd); talp_mpi_init(thread_spd); }
void vh_talp_mpi_finalize(void) { talp_mpi_finalize(thread_spd); }
void vh_sync_into(int b, int c) { spd_enter_dlb(thread_spd); into_sync_call((sync_call_flags_t) { .is_mpi = true, .is_blocking = b, .is_collective = c }); }
void vh_sync_out(int b, int c) { out_of_sync_call((sync_call_flags_t) { .is_mpi = true, .is_blocking = b, .is_collective = c }); }
void vh_main(void) { spd_enter_dlb(NULL); }
