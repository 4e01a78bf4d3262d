// Included before everything in the concurrency variant: atomic operations become places for preemption.
#pragma once
#ifdef __cplusplus
#include <algorithm>
#include <atomic>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <iostream>
#include <ext/atomicity.h>
extern "C" void pbt_sync_point();
#define PBT_SYNC_VALUE(...) ({ pbt_sync_point(); auto pbt_r = __VA_ARGS__; pbt_sync_point(); pbt_r; })
#define PBT_SYNC_VOID(...) ({ pbt_sync_point(); __VA_ARGS__; pbt_sync_point(); })
#define __sync_fetch_and_add(...) PBT_SYNC_VALUE(__sync_fetch_and_add(__VA_ARGS__))
#define __sync_fetch_and_sub(...) PBT_SYNC_VALUE(__sync_fetch_and_sub(__VA_ARGS__))
#define __sync_fetch_and_or(...) PBT_SYNC_VALUE(__sync_fetch_and_or(__VA_ARGS__))
#define __sync_fetch_and_and(...) PBT_SYNC_VALUE(__sync_fetch_and_and(__VA_ARGS__))
#define __sync_add_and_fetch(...) PBT_SYNC_VALUE(__sync_add_and_fetch(__VA_ARGS__))
#define __sync_sub_and_fetch(...) PBT_SYNC_VALUE(__sync_sub_and_fetch(__VA_ARGS__))
#define __sync_val_compare_and_swap(...) PBT_SYNC_VALUE(__sync_val_compare_and_swap(__VA_ARGS__))
#define __sync_bool_compare_and_swap(...) PBT_SYNC_VALUE(__sync_bool_compare_and_swap(__VA_ARGS__))
#define __sync_lock_test_and_set(...) PBT_SYNC_VALUE(__sync_lock_test_and_set(__VA_ARGS__))
#define __sync_lock_release(...) PBT_SYNC_VOID(__sync_lock_release(__VA_ARGS__))
#define __sync_synchronize(...) PBT_SYNC_VOID(__sync_synchronize(__VA_ARGS__))
#define __atomic_load_n(...) PBT_SYNC_VALUE(__atomic_load_n(__VA_ARGS__))
#define __atomic_store_n(...) PBT_SYNC_VOID(__atomic_store_n(__VA_ARGS__))
#define __atomic_exchange_n(...) PBT_SYNC_VALUE(__atomic_exchange_n(__VA_ARGS__))
#define __atomic_compare_exchange_n(...) PBT_SYNC_VALUE(__atomic_compare_exchange_n(__VA_ARGS__))
#define __atomic_add_fetch(...) PBT_SYNC_VALUE(__atomic_add_fetch(__VA_ARGS__))
#define __atomic_sub_fetch(...) PBT_SYNC_VALUE(__atomic_sub_fetch(__VA_ARGS__))
#define __atomic_fetch_add(...) PBT_SYNC_VALUE(__atomic_fetch_add(__VA_ARGS__))
#define __atomic_fetch_sub(...) PBT_SYNC_VALUE(__atomic_fetch_sub(__VA_ARGS__))
#define __atomic_test_and_set(...) PBT_SYNC_VALUE(__atomic_test_and_set(__VA_ARGS__))
#define __atomic_clear(...) PBT_SYNC_VOID(__atomic_clear(__VA_ARGS__))
#endif
