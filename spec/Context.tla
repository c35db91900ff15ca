------------------------------ MODULE Context ------------------------------
(* Library contexts: the string store (interning) and the macro registry of each, and their lifecycle.

   A context that is up owns a store of interned texts and a registry of macros. Every operation works on the active context
   only. Interning a text gives the stored string of that text: the same one for the same text, a different one for a different
   text, for as long as the context lives and is not reset. Texts above the configured limit are stored anew each time. The
   context initialised first holds the library's constants and outlives the others. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES ctx,    \* context -> [up, store, ids, macros, limit]
          cur,    \* the active context, 0 if there is none
          base    \* the context that holds the constants, 0 if none is up
Ctxs == 1..3
cvars == <<ctx, cur, base>>
Empty == [x \in {} |-> 0]
Underlying == "enum_underlying"            \* every context starts with this one macro
FreshMacros == [x \in {Underlying} |-> [kind |-> "expr", flags |-> 1]]
Down == [up |-> FALSE, store |-> Empty, ids |-> {}, macros |-> Empty, limit |-> 0]
Fresh(lim) == [up |-> TRUE, store |-> Empty, ids |-> {}, macros |-> FreshMacros, limit |-> lim]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

CInit(c, lim) == /\ ~ ctx[c].up
                 /\ ctx' = [ctx EXCEPT ![c] = Fresh(lim)] /\ cur' = c
                 /\ base' = IF base = 0 THEN c ELSE base
CSwitch(c) == ctx[c].up /\ cur' = c /\ UNCHANGED <<ctx, base>>
CReset(c) == ctx[c].up /\ ctx' = [ctx EXCEPT ![c] = Fresh(ctx[c].limit)] /\ UNCHANGED <<cur, base>>
CDeinit(c) == /\ ctx[c].up
              /\ c = base => \A d \in Ctxs \ {c} : ~ ctx[d].up
              /\ ctx' = [ctx EXCEPT ![c] = Down]
              /\ cur' = IF cur = c THEN 0 ELSE cur
              /\ base' = IF base = c THEN 0 ELSE base
\* interning `t` of length n yields the string identified by id
Intern(t, n, id) ==
  /\ cur # 0
  /\ IF n > ctx[cur].limit
     THEN id \notin ctx[cur].ids /\ ctx' = [ctx EXCEPT ![cur].ids = @ \union {id}]
     ELSE IF t \in DOMAIN ctx[cur].store THEN id = ctx[cur].store[t] /\ UNCHANGED ctx
          ELSE /\ id \notin ctx[cur].ids
               /\ ctx' = [ctx EXCEPT ![cur].store = Put(@, t, id), ![cur].ids = @ \union {id}]
  /\ UNCHANGED <<cur, base>>
Register(n, kind, flags) ==
  /\ cur # 0 /\ ctx' = [ctx EXCEPT ![cur].macros = Put(@, n, [kind |-> kind, flags |-> flags])] /\ UNCHANGED <<cur, base>>
\* a #define met while parsing registers its name unless it is registered already
Defined(n, functional) ==
  /\ cur # 0 /\ UNCHANGED <<cur, base>>
  /\ ctx' = IF n \in DOMAIN ctx[cur].macros THEN ctx
            ELSE [ctx EXCEPT ![cur].macros = Put(@, n, [kind |-> "expr", flags |-> IF functional THEN 1 ELSE 0])]

\* one string per text, and one text per string
Injective == \A c \in Ctxs : \A s, t \in DOMAIN ctx[c].store : ctx[c].store[s] = ctx[c].store[t] => s = t
Stored == \A c \in Ctxs : \A t \in DOMAIN ctx[c].store : ctx[c].store[t] \in ctx[c].ids
HasBase == (\E c \in Ctxs : ctx[c].up) => base # 0 /\ ctx[base].up
ActiveUp == cur # 0 => ctx[cur].up
=============================================================================
