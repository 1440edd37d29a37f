#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)());
void set_death_cb(void (*f)()) { __sanitizer_set_death_callback(f); }
#endif
