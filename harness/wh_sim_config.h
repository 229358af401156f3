// Scaled-down sizes so that splits, merges and hash-table growth happen within a run.
#undef WH_KPN
#define WH_KPN ((64u))
#undef WH_HMAPINIT_SIZE
#define WH_HMAPINIT_SIZE ((4u))
#undef WH_SLABMETA_SIZE
#define WH_SLABMETA_SIZE ((4096lu))
#undef WH_SLABLEAF_SIZE
#define WH_SLABLEAF_SIZE ((4096lu))
