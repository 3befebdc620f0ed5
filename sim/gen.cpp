#include "gen.h"
#include <string.h>
#include <algorithm>

static const char* const OPN[OP_N] = {
    "make-object", "new-local", "delete-local", "push-frame", "pop-frame", "ensure-capacity",
    "new-global", "delete-global", "global-to-local", "new-weak", "delete-weak", "weak-to-local", "weak-to-global", "weak-compare",
    "same-object", "ref-type", "type-query", "find-class", "get-method-id", "get-field-id", "call", "new-object",
    "field-prim", "field-object", "static-field", "new-object-array", "array-store", "array-load", "new-prim-array", "region-write", "region-read", "hold-pointer",
    "new-string", "check-string", "new-buffer", "check-buffer", "throw-new", "rethrow", "clear-exception", "monitor",
    "hook-member", "register-type", "attach", "detach", "get-env", "thread-exit-and-respawn", "shuffle",
    "register-natives", "unregister-natives", "call-native", "load-library", "unload-library", "replace-library", "scoped-frame", "fj-find-class", "denied-query",
    "undefined-method", "undefined-field", "get-vm", "reflect", "fj-global-ref", "yield", "native-method-id", "list-classes",
    "attach-failing", "array-view", "bulk-references", "undefined-lookup", "start-program", "many-at-once"};
const char* op_name(int c) { return c < OP_N ? OPN[c] : "?"; }
std::string op_text(const Op& o) {
    char b[160]; snprintf(b, sizeof b, "op %d: thread %d, depth %d, vm %d: %s %u %u %u", o.uid, o.tid, o.depth, o.vm, op_name(o.code), o.a, o.b, o.c);
    return b;
}
static const char* const PRN[] = {
    "destructor_reentry", "nested_call", "callback_threw", "weak_promotion_dead", "weak_promotion_alive", "pop_frame_with_result", "thread_id_reused", "global_used_by_other_thread", "monitor_contended", "monitor_recursive",
    "quiescent_check", "object_destroyed", "oom_escaped_as_bad_alloc", "oom_pending_exception", "virtual_override_called", "nonvirtual_call", "late_hook_called", "late_type_called", "undefined_member_fabricated", "undefined_lookup_null",
    "native_called", "native_replaced", "library_loaded", "library_missing", "onload_threw", "scoped_attach", "denied_lookup", "allowed_lookup", "second_vm", "thread_reattached", "pointer_held_over_other_work", "extra_rounds",
    "call_varargs", "call_va_list", "call_jvalue_array", "pending_exception_checked", "locals_freed_by_detach", "object_array_read", "last_reference_race", "scope_left_by_exception", "scope_without_env", "thread_exited_attached", "native_called_on_instance", "native_inherited", "native_behind_stand_in",
    "weak_passed_as_object", "dead_weak_passed_as_null", "environment_hook_threw", "unattached_queried", "accessor_callback", "accessor_threw", "large_data", "typed_stand_in_checked", "denial_rule_queried", "main_thread_detached", "class_pair_queried", "long_balanced_history", "code_generated", "denied_class_mentioned", "main_called", "main_missing", "references_released_at_callback", "null_for_reference_parameter", "hook_replaced", "native_given_object", "deep_frames", "many_natives", "many_monitors", "many_pointers_held", "many_ids", "called_from_cpp", "vm_after_destroyed_vm", "threw_bare_throwable", "operation_while_exception_pending", "detached_with_exception_pending", "descriptor_field", "environment_held_past_scope", "array_made_in_cpp", "field_of_second_base"};
const char* probe_name(int i) {
    static thread_local char b[64];
    if (i >= PR_OP0 && i < PR_OP0 + OP_N) { snprintf(b, sizeof b, "op_%s", OPN[i - PR_OP0]); return b; }
    if (i < (int)(sizeof PRN / sizeof *PRN)) return PRN[i];
    return nullptr;
}

struct W { int code, w; };
static Profile mk(const char* id, int bit, std::initializer_list<W> ws) {
    Profile p; memset(&p, 0, sizeof p); p.id = id; p.bit = bit;
    for (auto& x : ws) p.w[x.code] = x.w;
    p.worlds[0] = 6; p.worlds[1] = 3; p.worlds[2] = 1; p.nvm2 = 4; p.nullmode = 30;
    p.tmin = 2; p.tmax = 4; p.omin = 4; p.omax = 14; p.nest = 35; p.thr = 10; p.oom = 0; p.reenter = 10; p.rounds = 4; p.respawn = 4; p.idreuse = 70; p.freshattach = 10; p.teardown = 30; p.solo = 12;
    int pol[8] = {0, 10, 25, 30, 20, 15, 0, 0}; memcpy(p.pol, pol, sizeof pol);
    return p;
}
#define REFS {OP_MK, 14}, {OP_NEWLOCAL, 10}, {OP_DELLOCAL, 8}, {OP_PUSH, 6}, {OP_POP, 6}, {OP_NEWGLOBAL, 8}, {OP_DELGLOBAL, 5}, {OP_GLOBAL2LOCAL, 6}, {OP_SAME, 3}
static std::vector<Profile>& all() {
    static std::vector<Profile> v;
    if (!v.empty()) return v;
    Profile p;
    p = mk("C01", 1, {{OP_MK, 20}, {OP_NEWLOCAL, 16}, {OP_DELLOCAL, 12}, {OP_PUSH, 14}, {OP_POP, 14}, {OP_ENSURE, 4}, {OP_NEWGLOBAL, 4}, {OP_DELGLOBAL, 3}, {OP_GLOBAL2LOCAL, 5}, {OP_CALL, 10}, {OP_NEWOBJ, 4}, {OP_FOBJ, 5}, {OP_NEWARR, 2}, {OP_ARRSET, 2}, {OP_ARRGET, 2}, {OP_NEWSTR, 3}, {OP_STRCHK, 2}, {OP_SAME, 3}, {OP_FINDCLASS, 3}, {OP_THROWNEW, 2}, {OP_CLEAR, 1}, {OP_DETACH, 1}, {OP_ATTACH, 2}, {OP_BULK, 3}, {OP_WIDE, 4}});
    p.omax = 24; p.rounds = 12; p.reenter = 25; v.push_back(p);
    p = mk("C02", 2, {{OP_MK, 16}, {OP_NEWGLOBAL, 26}, {OP_DELGLOBAL, 22}, {OP_GLOBAL2LOCAL, 14}, {OP_DELLOCAL, 12}, {OP_SAME, 6}, {OP_REFTYPE, 6}, {OP_CALL, 8}, {OP_FOBJ, 6}, {OP_NEWWEAK, 4}, {OP_DELWEAK, 2}, {OP_WEAK2GLOBAL, 5}, {OP_PUSH, 2}, {OP_POP, 2}, {OP_FJGLOBAL, 6}, {OP_DETACH, 3}, {OP_ATTACH, 4}, {OP_NEWARR, 2}, {OP_FINDCLASS, 2}, {OP_BULK, 3}, {OP_WIDE, 2}});
    p.reenter = 25; p.respawn = 8; v.push_back(p);
    p = mk("C03", 3, {{OP_MK, 18}, {OP_NEWWEAK, 22}, {OP_DELWEAK, 8}, {OP_WEAK2LOCAL, 20}, {OP_WEAK2GLOBAL, 12}, {OP_WEAKCMP, 14}, {OP_DELLOCAL, 18}, {OP_NEWGLOBAL, 10}, {OP_DELGLOBAL, 14}, {OP_GLOBAL2LOCAL, 5}, {OP_FOBJ, 5}, {OP_PUSH, 3}, {OP_POP, 3}, {OP_DETACH, 3}, {OP_ATTACH, 4}, {OP_CALL, 4}, {OP_BULK, 3}, {OP_WIDE, 2}});
    p.reenter = 20; v.push_back(p);
    p = mk("C04", 4, {REFS, {OP_CALL, 10}, {OP_NEWOBJ, 5}, {OP_FOBJ, 8}, {OP_SFIELD, 4}, {OP_NEWARR, 6}, {OP_ARRSET, 5}, {OP_ARRGET, 4}, {OP_CARR, 3}, {OP_NEWPARR, 6}, {OP_NEWSTR, 6}, {OP_NEWBUF, 3}, {OP_NEWWEAK, 5}, {OP_DELWEAK, 3}, {OP_WEAK2LOCAL, 4}, {OP_THROWNEW, 4}, {OP_RETHROW, 2}, {OP_CLEAR, 2}, {OP_MONITOR, 3}, {OP_HOLD, 4}, {OP_DETACH, 4}, {OP_ATTACH, 5}, {OP_DYNHOOK, 3}, {OP_REGTYPE, 2}, {OP_FINDCLASS, 4}, {OP_GETMID, 3}, {OP_GETFID, 2}, {OP_REGNAT, 3}, {OP_UNREGNAT, 2}, {OP_CALLNAT, 2}, {OP_LIBLOAD, 3}, {OP_LIBUNLOAD, 2}, {OP_UNRESM, 2}, {OP_UNRESF, 2}, {OP_REFLECT, 2}, {OP_FJSCOPE, 3}, {OP_FJGLOBAL, 2}, {OP_BULK, 4}, {OP_LOOKUP, 3}, {OP_START, 2}, {OP_WIDE, 4}});
    p.rounds = 25; p.thr = 15; p.oom = 10; p.respawn = 8; p.teardown = 100; v.push_back(p);
    p = mk("C05", 5, {{OP_ATTACH, 24}, {OP_DETACH, 22}, {OP_GETENV, 16}, {OP_MK, 10}, {OP_NEWLOCAL, 5}, {OP_DELLOCAL, 4}, {OP_CALL, 8}, {OP_THROWNEW, 6}, {OP_PUSH, 4}, {OP_POP, 2}, {OP_NEWGLOBAL, 3}, {OP_FJSCOPE, 10}, {OP_FINDCLASS, 4}, {OP_GETVM, 5}, {OP_YIELD, 4}, {OP_ATTACHFAIL, 10}, {OP_BULK, 2}, {OP_START, 4}});
    p.oom = 20; p.respawn = 25; p.nvm2 = 20; p.tmin = 2; p.tmax = 5; p.freshattach = 40; v.push_back(p);
    p = mk("C06", 6, {{OP_MK, 16}, {OP_NEWLOCAL, 10}, {OP_DELLOCAL, 8}, {OP_PUSH, 10}, {OP_POP, 10}, {OP_CALL, 16}, {OP_THROWNEW, 12}, {OP_CLEAR, 5}, {OP_RETHROW, 4}, {OP_NEWOBJ, 5}, {OP_GLOBAL2LOCAL, 6}, {OP_NEWGLOBAL, 5}, {OP_DELGLOBAL, 3}, {OP_FOBJ, 4}, {OP_DETACH, 4}, {OP_ATTACH, 5}, {OP_GETENV, 3}, {OP_SAME, 2}, {OP_FJSCOPE, 4}, {OP_BULK, 2}, {OP_START, 2}});
    p.thr = 35; p.respawn = 10; v.push_back(p);
    p = mk("C07", 7, {{OP_FINDCLASS, 50}, {OP_FJFIND, 20}, {OP_FJCLASSES, 10}, {OP_REGTYPE, 10}, {OP_TYPEQ, 8}, {OP_MK, 8}, {OP_NEWGLOBAL, 5}, {OP_DELGLOBAL, 3}, {OP_NEWARR, 4}, {OP_NEWPARR, 3}, {OP_CALL, 6}, {OP_NEWSTR, 3}, {OP_DELLOCAL, 4}, {OP_LIBLOAD, 1}, {OP_UNRESF, 3}, {OP_UNRESM, 3}, {OP_DETACH, 2}, {OP_ATTACH, 2}, {OP_LOOKUP, 12}, {OP_WIDE, 3}});
    v.push_back(p);
    p = mk("C08", 8, {{OP_GETMID, 45}, {OP_GETFID, 35}, {OP_CALL, 15}, {OP_UNRESM, 10}, {OP_UNRESF, 10}, {OP_MK, 8}, {OP_DYNHOOK, 6}, {OP_REGTYPE, 3}, {OP_REFLECT, 8}, {OP_NEWOBJ, 5}, {OP_FPRIM, 5}, {OP_FOBJ, 4}, {OP_SFIELD, 3}, {OP_REGNAT, 12}, {OP_UNREGNAT, 8}, {OP_NATID, 6}, {OP_FJCLASSES, 2}, {OP_BULK, 2}, {OP_LOOKUP, 10}, {OP_WIDE, 4}});
    v.push_back(p);
    p = mk("C09", 9, {{OP_REGNAT, 26}, {OP_UNREGNAT, 14}, {OP_CALLNAT, 44}, {OP_NATID, 10}, {OP_GETMID, 8}, {OP_CALL, 8}, {OP_MK, 10}, {OP_NEWSTR, 4}, {OP_FINDCLASS, 4}, {OP_DYNHOOK, 3}, {OP_DETACH, 2}, {OP_ATTACH, 3}, {OP_WIDE, 4}});
    p.worlds[0] = 0; p.worlds[1] = 6; p.worlds[2] = 2; p.omax = 18; p.teardown = 50; v.push_back(p);
    p = mk("C10", 10, {{OP_CALL, 70}, {OP_NEWOBJ, 16}, {OP_MK, 16}, {OP_NEWGLOBAL, 5}, {OP_FPRIM, 12}, {OP_FOBJ, 6}, {OP_SFIELD, 6}, {OP_GETMID, 6}, {OP_NEWSTR, 3}, {OP_DELLOCAL, 4}, {OP_PUSH, 3}, {OP_POP, 3}, {OP_CALLNAT, 4}, {OP_REGNAT, 4}, {OP_NEWARR, 6}, {OP_DYNHOOK, 5}, {OP_START, 6}});
    p.thr = 15; p.omax = 18; v.push_back(p);
    p = mk("C11", 11, {{OP_CALL, 40}, {OP_NEWOBJ, 16}, {OP_THROWNEW, 16}, {OP_RETHROW, 8}, {OP_CLEAR, 8}, {OP_MK, 12}, {OP_NEWGLOBAL, 4}, {OP_PUSH, 3}, {OP_POP, 3}, {OP_DETACH, 3}, {OP_ATTACH, 4}, {OP_MONITOR, 4}, {OP_START, 5}});
    p.thr = 60; p.oom = 15; p.teardown = 50; v.push_back(p);
    p = mk("C12", 12, {{OP_MONITOR, 60}, {OP_MK, 14}, {OP_NEWGLOBAL, 20}, {OP_GLOBAL2LOCAL, 6}, {OP_DELGLOBAL, 4}, {OP_CALL, 12}, {OP_FPRIM, 6}, {OP_FINDCLASS, 5}, {OP_DETACH, 2}, {OP_ATTACH, 2}, {OP_WIDE, 3}});
    p.nest = 70; p.tmax = 5; p.solo = 4; v.push_back(p);
    p = mk("C13", 13, {REFS, {OP_CALL, 30}, {OP_NEWOBJ, 8}, {OP_MONITOR, 14}, {OP_FINDCLASS, 8}, {OP_GETMID, 8}, {OP_GETFID, 5}, {OP_DYNHOOK, 4}, {OP_REGTYPE, 4}, {OP_ATTACH, 5}, {OP_DETACH, 5}, {OP_LIBLOAD, 8}, {OP_LIBUNLOAD, 5}, {OP_FJSCOPE, 5}, {OP_NEWWEAK, 3}, {OP_WEAK2LOCAL, 3}, {OP_TYPEQ, 5}, {OP_REGNAT, 3}, {OP_CALLNAT, 4}, {OP_FJFIND, 3}, {OP_NEWARR, 3}, {OP_LOOKUP, 3}, {OP_START, 4}});
    p.nest = 60; p.reenter = 60; p.tmax = 5; p.respawn = 12; p.nvm2 = 15; p.solo = 4; v.push_back(p);
    p = mk("C14", 14, {REFS, {OP_CALL, 14}, {OP_NEWOBJ, 6}, {OP_FINDCLASS, 12}, {OP_GETMID, 10}, {OP_GETFID, 8}, {OP_FOBJ, 6}, {OP_FPRIM, 3}, {OP_SFIELD, 3}, {OP_NEWARR, 8}, {OP_ARRSET, 4}, {OP_ARRGET, 3}, {OP_CARR, 3}, {OP_NEWPARR, 8}, {OP_PARRW, 4}, {OP_PARRR, 4}, {OP_NEWSTR, 10}, {OP_STRCHK, 8}, {OP_HOLD, 6}, {OP_NEWBUF, 4}, {OP_BUFCHK, 3}, {OP_THROWNEW, 6}, {OP_CLEAR, 2}, {OP_NEWWEAK, 8}, {OP_WEAK2LOCAL, 6}, {OP_WEAK2GLOBAL, 5}, {OP_ATTACH, 6}, {OP_DETACH, 5}, {OP_DYNHOOK, 5}, {OP_REGTYPE, 4}, {OP_TYPEQ, 4}, {OP_UNRESM, 5}, {OP_UNRESF, 5}, {OP_REGNAT, 5}, {OP_UNREGNAT, 2}, {OP_CALLNAT, 4}, {OP_LIBLOAD, 5}, {OP_LIBUNLOAD, 4}, {OP_FJFIND, 5}, {OP_FJGLOBAL, 3}, {OP_FJCLASSES, 2}, {OP_NATID, 3}, {OP_FJSCOPE, 5}, {OP_REFLECT, 2}, {OP_MONITOR, 2}, {OP_LOOKUP, 5}, {OP_START, 3}});
    p.oom = 100; p.tmin = 1; p.tmax = 3; p.omax = 20; p.teardown = 60; v.push_back(p);
    p = mk("C15", 15, {{OP_LIBLOAD, 46}, {OP_LIBUNLOAD, 36}, {OP_CALL, 6}, {OP_MK, 6}, {OP_FINDCLASS, 6}, {OP_FJSCOPE, 4}, {OP_REGNAT, 4}, {OP_CALLNAT, 3}});
    p.worlds[0] = 0; p.worlds[1] = 6; p.worlds[2] = 3; p.oom = 20; p.nest = 50; p.teardown = 100; v.push_back(p);
    p = mk("C16", 16, {{OP_FJSCOPE, 46}, {OP_MK, 16}, {OP_NEWLOCAL, 8}, {OP_DELLOCAL, 4}, {OP_PUSH, 4}, {OP_POP, 4}, {OP_CALL, 12}, {OP_FJFIND, 5}, {OP_FJCLASSES, 4}, {OP_FJGLOBAL, 8}, {OP_DELGLOBAL, 6}, {OP_GETENV, 6}, {OP_ATTACH, 8}, {OP_DETACH, 10}, {OP_THROWNEW, 3}, {OP_NEWGLOBAL, 3}, {OP_ATTACHFAIL, 4}, {OP_START, 12}});
    p.worlds[0] = 0; p.worlds[1] = 6; p.worlds[2] = 2; p.nest = 75; p.respawn = 20; p.freshattach = 50; v.push_back(p);
    p = mk("C17", 17, {{OP_DENYQ, 70}, {OP_DYNHOOK, 8}, {OP_REGTYPE, 2}, {OP_FINDCLASS, 6}, {OP_GETMID, 6}, {OP_GETFID, 6}, {OP_CALL, 6}, {OP_MK, 4}, {OP_FJFIND, 4}, {OP_UNRESM, 4}, {OP_LOOKUP, 4}});
    p.worlds[0] = p.worlds[1] = 0; p.worlds[2] = 1; p.oom = 10; v.push_back(p);
    p = mk("C18", 18, {{OP_HOLD, 36}, {OP_NEWSTR, 16}, {OP_STRCHK, 10}, {OP_NEWPARR, 18}, {OP_PARRW, 14}, {OP_PARRR, 14}, {OP_NEWBUF, 6}, {OP_BUFCHK, 5}, {OP_NEWGLOBAL, 12}, {OP_DELGLOBAL, 6}, {OP_DELLOCAL, 6}, {OP_GLOBAL2LOCAL, 3}, {OP_PUSH, 3}, {OP_POP, 3}, {OP_CALL, 4}, {OP_BULK, 2}, {OP_WIDE, 5}});
    p.nest = 65; v.push_back(p);
    p = mk("C19", 19, {{OP_NEWARR, 22}, {OP_ARRSET, 24}, {OP_ARRGET, 24}, {OP_CARR, 16}, {OP_CALL, 6}, {OP_FOBJ, 30}, {OP_SFIELD, 10}, {OP_MK, 18}, {OP_NEWGLOBAL, 14}, {OP_DELGLOBAL, 10}, {OP_DELLOCAL, 20}, {OP_PUSH, 5}, {OP_POP, 6}, {OP_NEWWEAK, 4}, {OP_WEAK2LOCAL, 4}, {OP_NEWSTR, 5}, {OP_DETACH, 2}, {OP_ATTACH, 3}});
    p.omax = 20; p.reenter = 20; v.push_back(p);
    p = mk("C20", 20, {REFS, {OP_CALL, 14}, {OP_FINDCLASS, 12}, {OP_GETVM, 8}, {OP_GETENV, 8}, {OP_ATTACH, 8}, {OP_DETACH, 8}, {OP_THROWNEW, 6}, {OP_CLEAR, 2}, {OP_DYNHOOK, 5}, {OP_REGTYPE, 5}, {OP_GETMID, 6}, {OP_GETFID, 5}, {OP_TYPEQ, 5}, {OP_NEWWEAK, 3}, {OP_WEAK2LOCAL, 3}, {OP_LOOKUP, 5}, {OP_WIDE, 2}});
    p.worlds[0] = 1; p.worlds[1] = p.worlds[2] = 0; p.nvm2 = 100; p.respawn = 12; p.teardown = 60; v.push_back(p);
    p = mk("C21", 21, {{OP_UNRESM, 40}, {OP_UNRESF, 34}, {OP_NATID, 6}, {OP_FINDCLASS, 12}, {OP_MK, 8}, {OP_CALL, 8}, {OP_GETMID, 5}, {OP_GETFID, 5}, {OP_DELLOCAL, 5}, {OP_NEWGLOBAL, 3}, {OP_DYNHOOK, 2}, {OP_BULK, 2}, {OP_LOOKUP, 8}, {OP_REGTYPE, 5}});
    p.nullmode = 40; p.oom = 10; v.push_back(p);
    p = mk("C22", 22, {{OP_DYNHOOK, 22}, {OP_REGTYPE, 22}, {OP_CALL, 40}, {OP_GETMID, 20}, {OP_GETFID, 10}, {OP_FINDCLASS, 14}, {OP_TYPEQ, 8}, {OP_MK, 8}, {OP_UNRESM, 10}, {OP_UNRESF, 3}, {OP_REGNAT, 5}, {OP_UNREGNAT, 2}, {OP_CALLNAT, 5}, {OP_NEWOBJ, 4}, {OP_FPRIM, 4}, {OP_FJCLASSES, 4}, {OP_NATID, 3}, {OP_LOOKUP, 6}, {OP_START, 5}, {OP_WIDE, 4}});
    p.tmax = 5; p.solo = 3; v.push_back(p);
    p = mk("C23", 23, {{OP_TYPEQ, 40}, {OP_REFTYPE, 16}, {OP_SAME, 14}, {OP_MK, 18}, {OP_NEWGLOBAL, 12}, {OP_DELGLOBAL, 5}, {OP_NEWWEAK, 6}, {OP_WEAKCMP, 8}, {OP_GLOBAL2LOCAL, 5}, {OP_DELLOCAL, 4}, {OP_NEWSTR, 4}, {OP_REGTYPE, 12}, {OP_FINDCLASS, 6}, {OP_CALL, 4}, {OP_DYNHOOK, 2}, {OP_NEWARR, 8}, {OP_NEWPARR, 4}});
    v.push_back(p);
    p = mk("C26", 26, {{OP_LOOKUP, 60}, {OP_FINDCLASS, 12}, {OP_UNRESM, 14}, {OP_UNRESF, 12}, {OP_GETMID, 10}, {OP_GETFID, 8}, {OP_CALL, 6}, {OP_MK, 4}, {OP_NATID, 5}, {OP_REGNAT, 6}, {OP_UNREGNAT, 4}, {OP_DYNHOOK, 4}, {OP_REGTYPE, 4}, {OP_FJFIND, 5}, {OP_NEWOBJ, 3}, {OP_FPRIM, 2}, {OP_NEWARR, 3}, {OP_DETACH, 2}, {OP_ATTACH, 2}});
    p.nullmode = 8; p.worlds[1] = 1; p.worlds[2] = 3; p.nvm2 = 8; p.oom = 35; p.omax = 24; p.rounds = 4; p.reenter = 0; v.push_back(p);
    return v;
}
const Profile* profile_find(const char* id) { for (auto& p : all()) if (!strcmp(p.id, id)) return &p; return nullptr; }
const Profile* profile_at(int i) { return i < (int)all().size() ? &all()[i] : nullptr; }

struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t r() { return next() >> 24; }
    int in(int n) { return n > 0 ? (int)(r() % (uint32_t)n) : 0; }
    bool pc(int p) { return in(100) < p; }
};
static bool nestable(const Op& o) {
    int c = o.code;
    if (c == OP_FPRIM) return o.b % 11 >= 8;
    if (c == OP_FOBJ) return o.b % 3 == 1;
    if (c == OP_SFIELD) return o.b % 11 == 3 || o.b % 11 == 10;
    return c == OP_CALL || c == OP_NEWOBJ || c == OP_HOLD || c == OP_MONITOR || c == OP_FJSCOPE || c == OP_LIBLOAD || c == OP_LIBUNLOAD || c == OP_CALLNAT || c == OP_START; }
static int pickw(Rng& g, const int* w, int n) {
    int t = 0; for (int i = 0; i < n; i++) t += w[i];
    int x = g.in(t); for (int i = 0; i < n; i++) { if (x < w[i]) return i; x -= w[i]; }
    return 0;
}
static void gen_ops(Rng& g, const Profile& p, const int* w, Case& c, int tid, int depth, int n, int& budget) {
    for (int i = 0; i < n && budget > 0; i++) {
        Op o; o.uid = c.ops.size() + 1; o.tid = tid; o.depth = depth; budget--;
        if (depth == 0 && tid && g.pc(p.respawn) && i > 1 && g.pc(35)) o.code = OP_RESPAWN;
        else o.code = pickw(g, w, OP_N);
        o.vm = g.in(2); o.a = g.r(); o.b = g.r() & 0x7fffffff; o.c = g.r();
        if ((o.code == OP_CALL || o.code == OP_NEWOBJ) && g.pc(p.thr)) o.b = (o.b & 0xffu & ~0x30u & ~0xc0u) | (o.b & 0xc0u) | (o.b & 0x7fffff00u) | 0x80000000u;
        c.ops.push_back(o);
        if (nestable(o) && depth < 3 && g.pc(depth ? p.nest / 2 : p.nest)) gen_ops(g, p, w, c, tid, depth + 1, 1 + g.in(4), budget);
    }
}
Case gen_case(const Profile& p, uint64_t seed) {
    Rng g{seed * 0x2545F4914F6CDD1Dull + p.bit * 0x1000193};
    g.next();
    Case c; c.profile = p.id; c.seed = seed;
    Config& f = c.cfg;
    f.world = pickw(g, p.worlds, 3);
    f.nvm = f.world == 0 && g.pc(p.nvm2) ? 2 : 1;
    f.nullmode = f.world == 0 && g.pc(p.nullmode);
    f.nthreads = p.tmin + g.in(p.tmax - p.tmin + 1);
    f.rounds = 1;
    bool solo = g.pc(p.solo);   // one thread that does the work of several
    if (solo) f.nthreads = 1;
    if (g.pc(p.rounds)) { f.rounds = g.pc(60) ? 8 : 2; if (f.rounds == 8) f.nthreads = std::min(f.nthreads, 1 + g.in(2)); }
    f.simreuse = g.pc(p.idreuse);
    f.reenter = g.pc(p.reenter);
    // a random subset of the operations, with random emphasis
    int w[OP_N];
    for (int i = 0; i < OP_N; i++) { w[i] = p.w[i]; if (w[i] && g.pc(25)) w[i] = g.pc(50) ? w[i] * 4 : w[i] / 4; }
    if (f.world == 0) for (int i : {OP_FJSCOPE, OP_FJFIND, OP_FJGLOBAL, OP_LIBLOAD, OP_LIBUNLOAD, OP_REGNAT, OP_UNREGNAT, OP_CALLNAT, OP_DENYQ, OP_NATID, OP_FJCLASSES, OP_START}) w[i] = 0;
    if (f.world != 2) w[OP_DENYQ] = 0;
    int budget = 150;
    for (int t = 0; t < f.nthreads; t++) {
        if (t && g.pc(p.freshattach)) { Op o; o.uid = c.ops.size() + 1; o.code = OP_YIELD; o.tid = t; o.a = 1; c.ops.push_back(o); }
        gen_ops(g, p, w, c, t, 0, (p.omin + g.in(p.omax - p.omin + 1)) * (solo ? 1 + g.in(4) : 1), budget);
    }
    // allocation failures
    if (g.pc(p.oom) && !c.ops.empty()) {
        int n = 1 + g.in(g.pc(30) ? 8 : 3);
        for (int i = 0; i < n && i < rt::MAXFAULT; i++) {
            const Op& o = c.ops[g.in(c.ops.size())];
            rt::FaultEnt e; e.tid = o.tid; e.op = o.uid;
            if (o.tid && g.pc(p.bit == 5 ? 30 : 5)) e.op = 0xfe00 + o.tid;   // the attachment of the thread
            if (p.bit == 26 && g.pc(25)) { e.tid = 0; e.op = 0xfb00; }   // the code generation
            e.kind = g.pc(70) ? rt::F_OOM_ONE : rt::F_OOM_FROM; e.n = 1 + (g.pc(70) ? g.in(6) : g.in(30));
            c.faults.push_back(e);
        }
    }
    rt::Policy& q = c.pol;
    q.seed = g.next(); q.mode = 0;
    int m = pickw(g, p.pol, 8); q.mode = m ? m : rt::P_SYNC;
    static const uint32_t dens[] = {2, 4, 8, 20, 60};
    q.den = dens[g.in(5)]; if (q.mode == rt::P_ACCESS) q.den *= 4;
    q.d = 1 + g.in(4);
    q.horizon = q.mode == rt::P_PCT ? (g.pc(50) ? 4000 : 20000) : 1000 + g.in(4000);
    if (q.mode == rt::P_STALL) { q.d = 1 + g.in(6); q.den = 6 + g.in(20); }
    q.reuse = g.pc(25);
    f.teardown = g.pc(p.teardown);
    return c;
}
