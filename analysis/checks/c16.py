"""Auto-trait soundness.  (1) Every `unsafe impl Send/Sync` of the workspace is enumerated; only a crate-private hand-over
slot (atomic flag + UnsafeCells with Send contents) may carry one, and each of its methods is explored path by path:
contents written before a releasing publication, nothing touched afterwards, every shared read behind an acquiring load that
saw the published value, publication followed by a wake.  (2) Every raw pointer dereference, UnsafeCell access, transmute and
mutable static in code written in the workspace lies in a method of such a slot."""
import re
import q, slots


def run(ck):
    p = ck.prog()
    slot_adts = set()
    n = 0
    for i in slots.unsafe_impls(p):
        n += 1
        t = i["self_ty"]
        tr = i["trait"].split("::")[-1]
        a = p.adts.get(t.adt) if t.k == "adt" else None
        cellish = a and any(f[1].isadt("core::cell::UnsafeCell") for f in slots.fields(a))
        if tr == "Sync" and a and cellish and not a.get("params"):
            slot_adts.add(t.adt)
        else:
            ck.bad(f"unsafe-impl:{tr}:{t.s}", f"{t.s} is unconditionally asserted to be {tr}: safe code can then share contents that are not thread safe", i["span"])
    ck.count("unsafe auto-trait impls", n)
    for s in sorted(slot_adts):
        slots.slot_check(ck, p, s)
    allowed = set()
    for s in slot_adts:
        for b in slots.methods_of(p, s):
            allowed.add(b.id)
    nb = 0
    unsafe_fns = {u["id"] for u in p.unsafe_blocks if q.user_code(u["span"])}
    ck.count("unsafe blocks written in the workspace", len([u for u in p.unsafe_blocks if q.user_code(u["span"])]))
    for b in p.bodies.values():
        if b.kind == "mono" or not user_body(b):
            continue
        nb += 1
        if b.id in allowed or (b.root in allowed):
            continue
        # without an unsafe block the compiler already rules raw accesses out
        if b.id not in unsafe_fns and b.root not in unsafe_fns and not b.o.get("unsafe"):
            continue
        for what, sp in raw_ops(b):
            ck.bad(f"raw:{b.path}:{what}", f"{b.path} uses {what}, which bypasses the borrow and auto-trait rules", sp)
    ck.floor("bodies scanned for raw memory access", nb, 250)
    ck.ob("raw:none-outside-slots", True)
    # types handed across threads by the program are accepted by the compiler only because the auto traits are derived
    for name in ("workspace::Workspace", "types::Features"):
        for path, a in p.adts.items():
            if path.endswith("::" + name):
                ck.ob(f"send:{name}", a.get("send"), f"{path} is no longer Send")


def user_body(b):
    return "!" not in b.span


def raw_ops(b):
    for bb in b.bb:
        if bb.get("cl"):
            continue
        for pl, r, sp in bb["s"]:
            if not q.user_code(sp):
                continue
            places = [pl]
            if "p" in r:
                places.append(r["p"])
            for o in r.get("o", ()):
                if "c" in o:
                    places.append(o["c"])
                if "m" in o:
                    places.append(o["m"])
                if "k" in o and "static" in o["k"] and o["k"].get("mut"):
                    yield "a mutable static", sp
            for x in places:
                t = b.lty(x[0])
                for k, pe in enumerate(x[1:]):
                    if pe == "*" and k == 0 and t.k == "ptr":
                        yield "a raw pointer dereference", sp
            if r["r"] == "cast" and "Transmute" in str(r.get("ck")):
                yield "transmute", sp
        t = bb["t"]
        if t["t"] == "call" and "k" in t["f"] and "fn" in t["f"]["k"] and q.user_code(bb.get("sp")):
            f = t["f"]["k"]["fn"]
            if re.search(r"cell::UnsafeCell::<.*>::(get|raw_get)$|intrinsics::transmute|mem::transmute|ptr::(read|write|replace|swap)$|::from_raw$|slice::from_raw_parts", f["path"]):
                yield f["path"].split("::<")[0] + "::" + f["path"].split("::")[-1], bb.get("sp")
