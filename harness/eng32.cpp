#include "eng32.hpp"
#include <roaring/containers/containers.h>
int Eng32::type_of(const roaring_bitmap_t *b, int i) {
    int t = b->high_low_container.typecodes[i];
    if (t == 4) t = ((const roaring::internal::shared_container_t *)b->high_low_container.containers[i])->typecode;
    return t;
}
void Eng32::op_run_optimize() {
    Bm &x = pool[pick()]; LOG("  %s", kinds_str(x.b).c_str()); sig(0, &x);
    size_t before = 0, end;
    if (judge & C_OPT) { size_t n = roaring_bitmap_portable_size_in_bytes(x.b); Buf im(n); roaring_bitmap_portable_serialize(x.b, im.p); before = payload32((const unsigned char *)im.p, n, &end); }
    bool ret = roaring_bitmap_run_optimize(x.b);
    digest(ret);
    settle(x, x.m, C_OPT);
    if (judge & C_OPT) {
        size_t after = roaring_bitmap_portable_size_in_bytes(x.b);
        u64 k[5]; kinds32(x.b, k);
        CHECK(ret == (k[3] > 0), "run_optimize returned %d with %llu run containers", ret, (unsigned long long)k[3]);
        Buf im(after); roaring_bitmap_portable_serialize(x.b, im.p);
        size_t pay = payload32((const unsigned char *)im.p, after, &end);
        CHECK(pay <= before, "run_optimize grew the serialized containers from %zu to %zu bytes", before, pay);
        smallest_forms((const unsigned char *)im.p, after, x.m, 0);
        CHECK(roaring_bitmap_run_optimize(x.b) == ret, "run_optimize not idempotent");
        settle(x, x.m, C_OPT);
    }
}
void Eng32::op_remove_runs() {
    Bm &x = pool[pick()]; if (x.m.card() > MAX_EXPAND) return; LOG("  %s", kinds_str(x.b).c_str()); sig(0, &x);
    u64 k[5]; kinds32(x.b, k);
    bool ret = roaring_bitmap_remove_run_compression(x.b);
    digest(ret);
    settle(x, x.m, C_OPT);
    if (judge & C_OPT) {
        CHECK(ret == (k[3] > 0), "remove_run_compression returned %d with %llu run containers present", ret, (unsigned long long)k[3]);
        kinds32(x.b, k);
        CHECK(k[3] == 0, "remove_run_compression left run containers");
    }
}
void Eng32::op_shrink() {
    Bm &x = pool[pick()]; LOG("  %s", kinds_str(x.b).c_str()); sig(0, &x);
    HookStats a = hooks_stats();
    size_t saved = roaring_bitmap_shrink_to_fit(x.b);
    HookStats b = hooks_stats();
    settle(x, x.m, C_OPT);
    if ((judge & C_OPT) && hooks_installed()) {
        CHECK(b.live_bytes <= a.live_bytes, "shrink_to_fit grew memory in use from %llu to %llu bytes", (unsigned long long)a.live_bytes, (unsigned long long)b.live_bytes);
        CHECK(saved == a.live_bytes - b.live_bytes, "shrink_to_fit reports %zu bytes saved, memory in use went down by %llu", saved, (unsigned long long)(a.live_bytes - b.live_bytes));
    }
}
const std::vector<Eng32::Op> &Eng32::ops() {
    static const std::vector<Op> o = {
        {"add", C_UPD, 6, &Eng32::op_add}, {"add_checked", C_UPD, 6, &Eng32::op_add_checked}, {"remove", C_UPD, 6, &Eng32::op_remove}, {"remove_checked", C_UPD, 6, &Eng32::op_remove_checked},
        {"burst", C_UPD, 5, &Eng32::op_burst}, {"add_many", C_UPD, 6, &Eng32::op_add_many}, {"remove_many", C_UPD, 6, &Eng32::op_remove_many}, {"add_bulk", C_UPD, 6, &Eng32::op_add_bulk},
        {"add_range", C_UPD, 6, &Eng32::op_add_range}, {"add_range_closed", C_UPD, 6, &Eng32::op_add_range_closed}, {"remove_range", C_UPD, 6, &Eng32::op_remove_range}, {"remove_range_closed", C_UPD, 6, &Eng32::op_remove_range_closed},
        {"clear", C_UPD, 1, &Eng32::op_clear}, {"overwrite", C_UPD | C_COPY, 3, &Eng32::op_overwrite}, {"copy", C_UPD | C_COPY, 4, &Eng32::op_copy}, {"of_ptr", C_UPD, 3, &Eng32::op_of_ptr}, {"from_range", C_UPD, 5, &Eng32::op_from_range},
        {"build", 0, 12, &Eng32::op_from_scratch},
        {"aimed", C_SET, 16, &Eng32::op_aimed}, {"and", C_SET, 5, &Eng32::op_and}, {"or", C_SET, 5, &Eng32::op_or}, {"xor", C_SET, 5, &Eng32::op_xor}, {"andnot", C_SET, 5, &Eng32::op_andnot},
        {"and_inplace", C_SET, 5, &Eng32::op_and_in}, {"or_inplace", C_SET, 5, &Eng32::op_or_in}, {"xor_inplace", C_SET, 5, &Eng32::op_xor_in}, {"andnot_inplace", C_SET, 5, &Eng32::op_andnot_in},
        {"lazy_or", C_SET, 4, &Eng32::op_lazy_or}, {"lazy_or_inplace", C_SET, 4, &Eng32::op_lazy_or_in}, {"lazy_xor", C_SET, 4, &Eng32::op_lazy_xor}, {"lazy_xor_inplace", C_SET, 4, &Eng32::op_lazy_xor_in},
        {"or_many", C_SET, 3, &Eng32::op_or_many}, {"or_many_heap", C_SET, 3, &Eng32::op_or_many_heap}, {"xor_many", C_SET, 3, &Eng32::op_xor_many},
        {"flip", C_SET, 4, &Eng32::op_flip}, {"flip_closed", C_SET, 4, &Eng32::op_flip_closed}, {"flip_inplace", C_SET, 4, &Eng32::op_flip_in}, {"flip_inplace_closed", C_SET, 4, &Eng32::op_flip_in_closed},
        {"add_offset", C_SET, 5, &Eng32::op_add_offset}, {"cardinalities", C_SET, 6, &Eng32::op_cards},
        {"run_optimize", C_OPT, 5, &Eng32::op_run_optimize}, {"remove_run_compression", C_OPT, 3, &Eng32::op_remove_runs}, {"shrink_to_fit", C_OPT, 3, &Eng32::op_shrink},
        {"portable", C_SER, 2, &Eng32::op_portable}, {"native", C_SER, 2, &Eng32::op_native}, {"frozen", C_SER, 2, &Eng32::op_frozen_copy},
        {"free", 0, 2, &Eng32::op_free}, {"toggle_cow", C_COPY, 2, &Eng32::op_toggle},
    };
    return o;
}
