"""Which parts decide which property."""
from core import *
import sessions, graph, records, cli, conc, net


def n(quick, thorough):
    return thorough if THOROUGH else quick


def toy(c, *confs):
    for m, cfg in confs:
        d = design(m, cfg)
        d["what"] = "the equations of Frost.tla over a small field, exhaustively (%s)" % m
        c.add(d)


def c01(c):
    toy(c, ("ToyKeygen", "ToyKeygen.cfg"), *n([], [("ToyKeygen", "ToyKeygen2.cfg")]))
    net.designs(c, net.KG_DESIGN + n([], ["h2b2kg"]))
    net.schedules(c, [("s2kg", -1), ("s2kgi", n(60, -1)), ("s3kg", n(40, 600)), ("s4kg", n(10, 100)), ("s1b1kg", -1)])
    conc.crowd(c, n([40, 257], [3, 40, 255, 256, 257, 258, 300, 513, 700, 1025]))
    sessions.run(c, [("kgdeep", n(1, 4)), ("kg", n(60, 400)), ("kgbig", n(3, 20)), ("kghuge", n(1, 6)), ("kgmesh", n(6, 40)), ("kgduo", n(500, 5000)), ("kgref", n(40, 300)), ("kgbad", n(60, 500)), ("kgjunk", n(20, 200))])


def c02(c):
    toy(c, ("ToyKeygen", "ToyKeygen.cfg"), *n([], [("ToyKeygen", "ToyKeygen2.cfg")]))
    net.schedules(c, [("s1b1kg", -1), ("s1b2kg", n(60, 1500)), ("s2b1kg", n(40, 600)), ("s3b1kg", n(30, 400))])
    sessions.run(c, [("kgbad", n(420, 4500)), ("kgshift", n(64, 640)), ("kgmany", n(30, 300)), ("kgref", n(20, 100)), ("kgmesh", n(5, 40)), ("kgpair", n(600, 8000)), ("kg", n(10, 50))])


def c03(c):
    toy(c, ("ToyKeygen", "ToyKeygen.cfg"))
    sessions.run(c, [("kgbad", n(130, 1500)), ("kgshift", n(32, 320)), ("kgcopy", n(60, 600)), ("kgpair", n(1600, 16000)), ("kgstart", n(30, 300)), ("kgmesh", n(3, 20)), ("kgmany", n(20, 200)), ("kg", n(30, 200)), ("kgref", n(20, 100))])


def c04(c):
    toy(c, ("ToySign", "ToySign.cfg"), *n([], [("ToySign", "ToySign2.cfg"), ("ToySign", "ToySign3.cfg")]))
    net.designs(c, net.SG_DESIGN + n([], ["h2b2sg"]))
    net.schedules(c, [("s2sg", -1), ("s2sgi", n(60, -1)), ("s3sg", n(40, 600)), ("s4sg", n(10, 100)), ("s1b1sg", -1)])
    conc.crowd(c, n([40, 257], [3, 40, 255, 256, 257, 258, 300, 513, 700, 1025]))
    sessions.run(c, [("sg", n(60, 500)), ("sglen", n(60, 400)), ("sgbig", n(4, 30)), ("sghuge", n(3, 12)), ("sgmesh", n(3, 40)), ("sgduo", n(500, 5000)), ("sgref", n(40, 300)), ("sgjunk", n(20, 200))])


def c05(c):
    toy(c, ("ToySign", "ToySign.cfg"), *n([], [("ToySign", "ToySign2.cfg"), ("ToySign", "ToySign3.cfg")]))
    net.schedules(c, [("s1b1sg", -1), ("s1b2sg", n(60, -1)), ("s2b1sg", n(40, 600)), ("s2b2sg", n(40, 400))])
    sessions.run(c, [("sgbad", n(500, 5000)), ("sgshift", n(32, 320)), ("sgwrong", n(60, 600)), ("sgpair", n(700, 7000)), ("sgmesh", n(6, 50)), ("sgref", n(20, 100)), ("sg", n(10, 50))])


def c06(c):
    graph.run(c)
    sessions.run(c, [("sg", n(40, 400)), ("sgstart", n(80, 800)), ("sgtwin", n(15, 150)), ("sgref", n(30, 300)), ("sgjunk", n(40, 400)), ("sghost", n(60, 600)), ("sgbad", n(40, 400)),
                     ("sgshort", n(10, 50)), ("sgdrive", n(20, 200))])
    sessions.nosource(c, n(30, 300))


def c07(c):
    sessions.run(c, [("sg", n(40, 400)), ("sgref", n(80, 800)), ("sgbig", n(4, 30)), ("sghuge", n(3, 30)), ("sgmesh", n(4, 60)), ("sgduo", n(900, 9000)), ("sglen", n(40, 300)), ("sglong", n(6, 30)),
                     ("sgthousand", n(1, 4))])


def c08(c):
    graph.run(c)
    conc.crowd(c, n([30, 260], [100, 255, 256, 257, 258, 400, 600]))
    sessions.run(c, [("kgjunk", n(50, 500)), ("sgjunk", n(50, 500)), ("kg", n(10, 50)), ("sg", n(10, 50))])


def c09(c):
    conc.crowd(c, n([30, 258], [100, 255, 256, 257, 258, 400, 600]))
    net.designs(c, ["h3kg", "h2b1sg"])
    net.schedules(c, [("s2kg", -1), ("s2sg", -1), ("s2kgi", n(100, -1)), ("s2sgi", n(100, -1)), ("s1b2kg", n(30, 600)), ("s3kg", n(40, 600)), ("s3sg", n(40, 600))])
    graph.run(c)
    sessions.run(c, [("kg", n(40, 400)), ("sg", n(40, 400)), ("kgref", n(30, 300)), ("sgref", n(30, 300)), ("kgjunk", n(10, 50)), ("sgjunk", n(10, 50))])


def c10(c):
    graph.run(c)
    conc.crowd(c, n([40, 257, 300], [3, 40, 255, 256, 257, 258, 300, 513, 700, 1025]))
    sessions.run(c, [("kg", n(30, 300)), ("sg", n(30, 300)), ("kgjunk", n(30, 300)), ("sgjunk", n(30, 300)), ("kgbad", n(30, 200)), ("sgbad", n(30, 200))])


def c11(c):
    graph.run(c)
    conc.lifecycle(c)
    conc.busy(c, n(5, 6), n(1200, 20000))
    sessions.virtual(c, n(400, 4000))
    sessions.run(c, [("kg", n(20, 200)), ("sg", n(20, 200)), ("kgjunk", n(20, 200)), ("sgjunk", n(20, 200)), ("kgbad", n(60, 500)), ("sgbad", n(60, 500))])


def c12(c):
    conc.lifecycle(c)
    conc.busy(c, n(5, 6), n(1200, 20000))
    sessions.virtual(c, n(2000, 40000))
    net.designs(c, ["h2kgt", "h2b1sgt"] + n([], ["h2b1kgt"]))
    for ms in n([300], [40, 150, 300, 700]):
        sessions.timed(c, n(120, 400), ms)
    for ms in n([1850], [1250, 1850, 2700]):  # longer than a second, and no whole number of them
        sessions.timed(c, n(46, 160), ms)
    sessions.run(c, [("kgmemto", n(20, 100)), ("sgmemto", n(20, 100))])


def c13(c):
    build_driver(race=True)
    conc.lifecycle(c)
    conc.histories(c, n(600, 8000))
    conc.busy(c, 4, n(300, 2000), race=True)
    conc.real(c, n(60, 600))
    conc.shared(c, n(40, 600))


def c14(c):
    graph.run(c)
    sessions.timed(c, n(40, 200), 100)
    sessions.virtual(c, n(400, 4000))
    sessions.run(c, [("kgbad", n(350, 3000)), ("sgbad", n(600, 5000)), ("kgjunk", n(20, 100)), ("sgjunk", n(20, 100)), ("kgref", n(10, 100)), ("sgref", n(10, 100))])


def c15(c):
    records.run(c, [("wire", n(1500, 20000)), ("weq", n(300, 4000)), ("wmake", n(300, 4000)), ("poly", n(14, 60))], vecs=True)


def c16(c):
    records.run(c, [("wire", n(600, 8000)), ("poly", n(6, 30)), ("point", n(100, 1000)), ("id", n(50, 500)), ("sharebin", n(60, 600)), ("sharejson", n(150, 2000)),
                    ("pubjson", n(150, 2000)), ("keyjson", n(80, 1000)), ("sigbin", n(80, 1000)), ("fuzz", n(3000, 100000))], vecs=True)
    sessions.run(c, [("kghost", n(150, 2500)), ("sghost", n(150, 2500)), ("kgjunk", n(60, 600)), ("sgjunk", n(60, 600)), ("kgbad", n(60, 600)), ("sgbad", n(60, 600))])


def c17(c):
    build_driver(race=True)
    conc.shared(c, n(40, 600))
    sessions.run(c, [(a + b, n(40, 500)) for a in ("alias", "scrib") for b in ("kg", "sg", "kgbad", "sgbad")],
                 only=lambda s, kind: s["family"].startswith(("alias", "scrib")))
    records.run(c, [("verify", n(40, 400)), ("lagrange", n(40, 400)), ("wire", n(200, 2000)), ("deal", n(20, 200))])


def c18(c):
    records.run(c, [("sharebin", n(200, 3000)), ("sharejson", n(300, 5000)), ("pubjson", n(300, 5000)), ("pubbig", n(6, 60)), ("pubeq", n(200, 2000)), ("shareeq", n(100, 1000)),
                    ("keyjson", n(150, 2000)), ("sigbin", n(200, 2000)), ("sigeq", n(150, 1500)), ("id", n(150, 2000))])


def c19(c):
    records.run(c, [("verify", n(2500, 20000)), ("op", n(150, 1500))])
    sessions.run(c, [("sg", n(30, 300))])


def c20(c):
    records.run(c, [("lagrange", n(500, 8000)), ("deal", n(150, 2000)), ("dealbig", n(2, 25))])


def c21(c):
    records.run(c, [("newkg", n(1200, 15000)), ("newsg", n(1200, 15000)), ("newpub", n(400, 5000)), ("ids", n(600, 8000)), ("id", n(200, 2000))])
    sessions.run(c, [("kg", n(20, 100)), ("sg", n(20, 100)), ("kgbig", n(2, 10)), ("sgbig", n(2, 10))])


def c22(c):
    sessions.run(c, [("kgmem", n(60, 600)), ("sgmem", n(60, 600)), ("kgmembad", n(80, 1000)), ("sgmembad", n(80, 1000)), ("kgmemto", n(40, 300)), ("sgmemto", n(40, 300))])


def c23(c):
    records.run(c, [("point", n(600, 8000)), ("op", n(900, 12000)), ("opbig", n(16, 160)), ("peq", n(300, 4000))])


def c24(c):
    cli.run(c, n(6, 30), [(20, 100), (1, 2), (1, 100), (64, 65)] + n([], [(99, 100), (50, 100), (98, 99)]))


def c25(c):
    sessions.run(c, [("kgdrive", n(120, 1200)), ("sgdrive", n(120, 1200)), ("kgdrivebad", n(60, 600)), ("sgdrivebad", n(60, 600))])


def c26(c):
    sessions.run(c, [("kg", n(40, 400)), ("sg", n(40, 400)), ("kgstart", n(60, 600)), ("sgstart", n(80, 800)), ("kgbig", n(2, 20)), ("kgtwin", n(15, 150)), ("sgtwin", n(10, 100)), ("kgshort", n(15, 100)), ("sgshort", n(15, 100)),
                     ("kgbad", n(40, 400)), ("sgbad", n(40, 400)), ("kgjunk", n(20, 200)), ("sgjunk", n(20, 200))],
                 only=lambda s, kind: kind == "crash" and s["family"] in ("kgshort", "sgshort"))
    records.run(c, [("deal", n(60, 600)), ("dealbig", n(1, 10))])
    sessions.nosource(c, n(40, 300))


CHECKS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}

TV = "TLA+ (TLC) trace validation of the real sessions against Session.tla"
RC = "TLA+ (TLC): every recorded call is recomputed by Records.tla"
GR = "TLC state graph of EngineGraph replayed on the real engine (model-based testing) and trace validation against Session.tla"
INFO = {
 "C01": (TV + "; exhaustive model check of the equations (ToyKeygen) and of the network (Net)", "model_checking",
         "Every recorded call of real key generations over an asynchronous network is judged by the specification; identifiers, thresholds, schedules and contributions are sampled, the toy-field model and the schedules of small groups are exhaustive."),
 "C02": (TV + " with misbehaving reference parties; exhaustive model check of the equations (ToyKeygen); schedules of Net.tla", "model_checking",
         "The toy-field model shows exhaustively that the checks accept exactly the consistent contributions; all catalogued faults in random positions and schedules, and all schedules of small networks with a misbehaving party, judged by the equations in TLA+."),
 "C03": (TV + " with forged proofs; exhaustive model check of the equations (ToyKeygen)", "model_checking",
         "Proof equation evaluated by the specification for every accepted or emitted contribution, with copied, re-attributed and altered proofs."),
 "C04": (TV + "; exhaustive model check of the equations (ToySign) and of the network (Net)", "model_checking",
         "All schedules of two signers and sampled ones of more, random signer subsets of up to 270 signers, all message lengths near block boundaries; every signature recomputed by the specification."),
 "C05": (TV + " with misbehaving reference signers; exhaustive model check of the equations (ToySign); schedules of Net.tla", "model_checking",
         "All catalogued share and commitment faults, judged by the share equation in TLA+; schedules of small networks with misbehaving signers."),
 "C06": (GR + "; nonces recomputed from the bytes read from the random source", "model_checking",
         "Every emitted commitment must be a freshly read 64-byte chunk of the random source times the base point; engine graph and random, hostile and repeated sessions."),
 "C07": (TV, "model_checking",
         "Binding factors, group nonce, challenge, share and signature recomputed by the specification, up to 1050 signers and 200 kB messages, in mixes with reference signers."),
 "C08": (GR, "model_checking", "The engine's complete state graph is replayed action by action (all single actions, pairs of actions, random walks) on real engines; real protocol sessions with junk traffic are judged by Session.tla."),
 "C09": (GR + "; Net.tla model checked, its schedules performed with real sessions", "model_checking",
         "All orders of hand-over and processing of the small engine configurations, all schedules of two-party networks, random asynchronous schedules of larger sessions."),
 "C10": (GR, "model_checking", "As C08; emitted messages of real sessions are compared with the specification in number, type, sender and recipient."),
 "C11": (GR + "; Lifecycle.tla model checked; schedules of Busy.tla performed, explained by TraceLin.tla", "model_checking",
         "As C08; every observation after every call is compared with the specification's state, also when calls and the timeout arrive while the session is busy, and long after its end."),
 "C12": (TV + " on a simulated clock, exact to the tick, and in real time; Lifecycle.tla and Net.tla with timeouts model checked; schedules of Busy.tla", "model_checking",
         "Random sessions with timeouts from nanoseconds to weeks on a simulated clock (testing/synctest), judged to the tick; sessions with real timeouts under twenty delivery patterns, with slack for load; calls and the timeout arriving while the session is busy."),
 "C13": ("TLA+ (TLC): concurrent histories of the real engine must be explained by TraceLin.tla; Lifecycle.tla model checked; schedules of Busy.tla; race detector; concurrent protocol sessions against Session.tla", "model_checking",
         "Thousands of short histories of overlapping calls, each searched by TLC for a sequential explanation over the engine's specification; calls are also placed inside a processing call by Busy.tla; other interleavings come from the Go scheduler with injected delays, so they are sampled, not enumerated."),
 "C14": (GR, "model_checking", "Named party and round are compared with the set of faulty contributions computed by the specification."),
 "C15": (RC + "; boundary vectors generated by TLC from WireGen.tla are replayed on the decoder", "model_checking",
         "All boundary vectors of the wire specification, and random valid, altered and arbitrary byte strings, judged by the byte-level specification Wire.tla."),
 "C16": (RC + " and sessions with hostile traffic against Session.tla", "model_checking",
         "Generated boundary vectors, altered encodings and random bytes for all decoders; hostile but decodable messages at any moment of real sessions."),
 "C17": (TV + " with shared objects and scribbling", "model_checking",
         "Sessions that share message objects or whose callers overwrite everything they own must behave as the specification of undisturbed sessions; contents are compared at the end."),
 "C18": (RC, "model_checking", "Random, boundary and altered records in all encodings, judged by the specification of each format."),
 "C19": (RC + "; trace validation of signing sessions", "model_checking", "Verification equation evaluated by the specification for valid, altered and degenerate signatures; compared with the standard library's verifier."),
 "C20": (RC, "model_checking", "Lagrange coefficients and dealt shares recomputed by the specification over random and boundary identifier sets."),
 "C21": (RC, "model_checking", "Creation of sessions and records with valid, boundary and invalid parameters; expected acceptance computed by the specification."),
 "C22": (TV + " including the memory of the session objects", "model_checking",
         "Everything reachable from an ended session is searched for the secrets that the specification computes from the random bytes and keys of the run."),
 "C23": (RC, "model_checking", "Encodings, group operations and aliasing compared with the specification's ristretto255 arithmetic."),
 "C24": (RC, "model_checking", "Real runs of both command-line tools with valid and invalid arguments; files, outputs and signatures judged by the specification."),
 "C25": (TV, "model_checking", "Drives with batches of genuine, repeated, foreign, undecodable and faulty messages in any order, judged by Session.tla."),
 "C26": (TV + " with the bytes read from the random source", "model_checking",
         "Every chosen secret must be a distinct freshly read 64-byte chunk reduced modulo the group order; emitted bytes, error texts and public data are searched for secrets."),
}
