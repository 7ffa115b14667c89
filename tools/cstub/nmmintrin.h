long long _mm_popcnt_u64(unsigned long long);
