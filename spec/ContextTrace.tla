---------------------------- MODULE ContextTrace ----------------------------
(* Recorded lifecycle, interning and registry operations. Strings are identified by where they are stored; `got` is what the
   stored string reads as; `intact` says every string handed out by a context that is up still reads as it did. `memo` keeps what
   each sample program gave: it must give the same in every context at every time, given the same macro. *)
EXTENDS Context, TraceBase
VARIABLE memo
tvars == <<l, cvars, memo>>
Start == ctx = [c \in Ctxs |-> Down] /\ cur = 0 /\ base = 0
TInit == l = 1 /\ Start /\ memo = Empty
Key(k) == <<k, IF "MM" \in DOMAIN ctx[cur].macros THEN <<ctx[cur].macros["MM"].kind, ctx[cur].macros["MM"].flags>> ELSE <<"none", 0>>>>
Constants == << <<"Global Code", "Global Code">>, <<"t_auto", "auto">>, <<"t_void", "void">>, <<"t_int", "int">>, <<"t_bool", "bool">>, <<"t_char", "char">>, <<"t_wchar_t", "wchar_t">>,
                <<"t_class", "class">>, <<"t_typename", "typename">>, <<"t_u8", "u8">>, <<"t_s64", "s64">>, <<"t_f32", "f32">>,
                <<"access_public", "public:\n">>, <<"access_protected", "protected:\n">>, <<"access_private", "private:\n">>,
                <<"module_global_fragment", "module;">>, <<"module_private_fragment", "module : private;">>,
                <<"attrib_api_export", "GEN_API_Export_Code">>, <<"attrib_api_import", "GEN_API_Import_Code">>,
                <<"pragma_once", "#pragma once\n">>, <<"preprocess_else", "#else\n">>, <<"preprocess_endif", "#endif\n">>, <<"fmt_newline", "\n">>,
                <<"spec_const", "const ">>, <<"spec_inline", "inline ">>, <<"spec_virtual", "virtual ">>, <<"spec_static_member", "static ">>, <<"spec_ptr", "* ">>,
                <<"spec_ref", "& ">>, <<"param_varadic", "...">> >>
Do(e) ==
  CASE e.op = "Reset" -> ctx' = [c \in Ctxs |-> Down] /\ cur' = 0 /\ base' = 0 /\ UNCHANGED memo
    [] e.op = "cinit" -> CInit(e.c, e.limit) /\ UNCHANGED memo
    [] e.op = "cswitch" -> CSwitch(e.c) /\ UNCHANGED memo
    [] e.op = "creset" -> CReset(e.c) /\ UNCHANGED memo
    [] e.op = "cdeinit" -> CDeinit(e.c) /\ e.live = 0 /\ UNCHANGED memo
    [] e.op = "intern" -> Intern(e.t, e.n, e.id) /\ e.got = e.t /\ e.term /\ UNCHANGED memo
    [] e.op = "reg" -> Register(e.name, e.kind, e.flags) /\ UNCHANGED memo
    [] e.op = "def" -> Defined(e.name, e.functional) /\ UNCHANGED memo
    [] e.op = "lookup" ->
         /\ cur # 0 /\ UNCHANGED <<cvars, memo>>
         /\ IF e.name \in DOMAIN ctx[cur].macros
            THEN e.found /\ e.as = e.name /\ e.kind = ctx[cur].macros[e.name].kind /\ e.flags = ctx[cur].macros[e.name].flags
                 /\ e.isfunc = (e.flags % 2 = 1) /\ e.isbody = ((e.flags \div 2) % 2 = 1)
            ELSE ~ e.found
    [] e.op = "sample" ->
         /\ cur # 0 /\ UNCHANGED cvars
         /\ IF Key(e.k) \in DOMAIN memo THEN e.out = memo[Key(e.k)] /\ UNCHANGED memo ELSE memo' = Put(memo, Key(e.k), e.out)
    [] e.op = "const" -> cur # 0 /\ e.list = Constants /\ UNCHANGED <<cvars, memo>>
    [] OTHER -> FALSE
Observed(e) == IF e.op = "Reset" THEN TRUE ELSE e.intact /\ e.cur = cur'
TNext == HasEvent /\ Do(Ev) /\ Observed(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
