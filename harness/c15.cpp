#include "ports.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/pipe.hpp"
using namespace P;
template<typename T> static void memory()
{
    using X = Tr<T>; int len = std::is_same_v<T, Array> ? range(1, 3) : 1; V held = X::num(len);
    ctx("memory ", X::name(), " initial", str(held));
    MemoryT<T> b(X::val(held)); auto x = X::make(len), y = X::make(len);
    MUST_PASS(b.connect(Bus({x}), Bus({y})), "connecting");
    REQ(!(flags(b, x) & Block::Required) && (flags(b, x) & Block::Input), "the input is not required");
    REQ(flags(b, y) & Block::Output, "the output is an output");
    REQ(b.ready_to_process(), "can run without its input");
    for (int k = range(1, 8); k > 0; k--)
    {
        double now = num();
        if (coin(40)) { b.pre_step(now); also(" pre"); }
        if (coin(70))
        {
            y->clear(); x->clear(); if (coin()) set<T>(x, X::num(len));
            b._mark_unprocessed(); EQ(b.process(now), 1u, "runs"); also(" act");
            same<T>(y, held, "the output");
        }
        if (coin(60))
        {
            V v = X::num(len); x->clear(); set<T>(x, v);
            b.post_step(now); held = v; also(" post", str(v)); same<T>(x, v, "the input");
        }
    }
}
template<typename T> static void pipe()
{
    using X = Tr<T>; int len = std::is_same_v<T, Array> ? range(1, 3) : 1;
    ctx("pipe ", X::name()); PipeT<T> b; auto x = X::make(len), y = X::make(len);
    MUST_PASS(b.connect(Bus({x}), Bus({y})), "connecting");
    for (int k = range(1, 5); k > 0; k--)
    {
        V v = X::num(len); double now = num(); x->clear(); y->clear(); if (coin()) b.pre_step(now); if (coin()) b.post_step(now);
        b._mark_unprocessed(); EQ(b.process(now), 0u, "waits for its input"); REQ(!y->assigned(), "no output yet");
        set<T>(x, v); also(str(v)); EQ(b.process(now), 1u, "runs"); same<T>(y, v, "the output"); same<T>(x, v, "the input");
    }
}
void H::run()
{
    int n = g_thorough ? 100000 : 10000;
    for (int c = 0; c < n; c++)
        switch (below(6))
        {
        case 0: memory<double>(); break;
        case 1: memory<int>(); break;
        case 2: memory<bool>(); break;
        case 3: memory<Array>(); break;
        case 4: if (coin()) pipe<double>(); else pipe<int>(); break;
        default: if (coin()) pipe<bool>(); else pipe<Array>();
        }
}
