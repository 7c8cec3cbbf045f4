#pragma once
// Which operations a run of the engine uses (weights)
struct Mix {
    unsigned push = 4, insert = 2, alloc = 3, alloc_s = 2, alloc_range = 2, cancel = 1, stray = 1;
    unsigned pop = 4, pop_range = 2, pop_s = 2, peek = 3, peek_range = 2, recycle = 2;
    unsigned resize = 0, close = 1, stats = 0, blocked = 1, gc = 1, fill = 1, empty = 1;
    bool write_through = false; bool sigs = true; bool full_look = true; bool bad_index = false; unsigned waits = 1;
    int max_ops = 60;
};

