#pragma once
#include "world.hpp"
void p_memory(Src &, Ctx &);
void p_editing(Src &, Ctx &);
void p_tokens(Src &, Ctx &);
void p_dispatch(Src &, Ctx &);
void p_paths(Src &, Ctx &);
void p_tree(Src &, Ctx &);
void p_ls(Src &, Ctx &);
void p_cat(Src &, Ctx &);
void p_xxd(Src &, Ctx &);
void p_echo(Src &, Ctx &);
void p_tab(Src &, Ctx &);
void p_flow(Src &, Ctx &);
void p_isolation(Src &, Ctx &);
void p_print(Src &, Ctx &);
void p_recovery(Src &, Ctx &);
void p_help(Src &, Ctx &);
void p_lifecycle(Src &, Ctx &);
void p_config(Src &, Ctx &);
void p_liveness(Src &, Ctx &);
void p_noheap(Src &, Ctx &);
void p_groups(Src &, Ctx &);
void p_utils(Src &, Ctx &);
void p_process(Src &, Ctx &);
void p_threads(Src &, Ctx &);
void p_constant(Src &, Ctx &);
void p_midway(Src &, Ctx &);
void p_session(Src &, Ctx &);

// helpers shared between properties
Bytes garbage_bytes(Src &s, World &w, size_t maxlen);
