#!/usr/bin/env python3
"""Single source for properties.jsonl (run from anywhere; writes ../properties.jsonl)."""
import json, os
H="include/ygopen/"
ENC="src/codec/edo9300_ocgcore_encode.cpp"; DEC="src/codec/edo9300_ocgcore_decode.cpp"
FR=H+"client/frame.hpp"; LF=H+"client/frame_limbo.hpp"; PE=H+"client/parse_event.hpp"; UPE=H+"client/undo_parse_event.hpp"
UN=H+"client/undoable.hpp"; PQ=H+"client/parse_query.hpp"; CTX=H+"server/basic_encode_context.hpp"; ROOM=H+"server/room.hpp"; BRD=H+"client/board.hpp"
QI=H+"client/queries.inl"; CARD=H+"client/card.hpp"
def p(id,title,statement,over,text,why,files,state,mech,obs):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
P=[]
P.append(p("C01","Every viewer's board shows each card where the engine put it",
 "For every sequence of duel messages a core emits, a viewer who applies the translated event stream in order ends after each message with exactly the engine's board: the same number of cards in each pile, the same zones occupied, and the same card object followed through every draw, move, swap, pile splice, pile exchange, reversal, graveyard/deck swap, set-card shuffle, tag swap, addition and removal. The position within a pile and of each material is preserved, and no other card moves.",
 ["histories","inputs","fault_sequences"],
 "all duel histories (any length, pile sizes, card counts), for every viewer, whatever lost connections, restarts and injected noise messages interleave",
 "No test runs the codec at all and frame tests apply single operations to boards of a few cards; agreement must hold along whole histories where an early off-by-one only shows many messages later.",
 [ENC,FR,PE,CTX],
 [("piles and zones","viewer's model of where each card is",FR),("encode context board","server's shadow board used to compute pile sizes",CTX)],
 [("core message translation",ENC),("event application",PE),("card and pile operations",FR)],
 ["viewer board after each delivered message"]))
P.append(p("C02","Every viewer's scoreboard matches the engine's",
 "After every prefix of the message stream a viewer's life points, turn count, turn player, phase, chain stack (every link with its card's place, triggering place and effect) and set of blocked zones equal the engine's. Damage and payments never take life points below zero, chain links resolve last-in first-out, and each blocked-zone announcement replaces the former set.",
 ["histories","inputs","fault_sequences"],
 "all histories of life point, turn, phase, chain and zone-disable messages with any values, interleaved with board messages, drops and reconnects",
 "The only event-application tests use empty events; values near zero or the type limits, long chains, and both players' zone bit halves are never exercised.",
 [ENC,PE,BRD],
 [("life points, turn, phase, chain stack, blocked zones","scoreboard part of the viewer's board",BRD)],
 [("scalar event application",PE),("zone bit unpacking and chain translation",ENC)],
 ["viewer scoreboard after each delivered message"]))
P.append(p("C03","Core messages are framed exactly; unknown ones never derail a duel",
 "Translating a core message reads exactly the bytes the core wrote for it, never one more or fewer, for every message type and any list lengths, so back-to-back messages in one buffer stay in step. Messages that carry nothing for viewers yield no output but are still consumed exactly; unrecognised ones are reported as unknown and change nothing, and the duel continues correctly after them.",
 ["inputs","histories","fault_sequences"],
 "every message type, list length, field value and order of messages in a buffer, including unknown ids injected anywhere",
 "No test calls the message translator; a single mis-sized field corrupts every later message, which only shows in streams.",
 [ENC,H+"codec/encode_common.hpp"],
 [],[("message reader",ENC)],["bytes consumed, result state, and memory accesses of each translation"]))
P.append(p("C04","Overlay materials stay with their monster, in order",
 "Cards attached as overlay materials, including those the core announces as attached before the monster is on the field and those already under the zone it lands on, end under the monster that owns them in attachment order once it arrives. They follow it when it moves or swaps, can be detached one by one in any order, and when their owner leaves the field each one detached afterwards is the card the core named, however many owners leave and re-use places.",
 ["histories","inputs","fault_sequences"],
 "all interleavings of attach, summon, rank-up, detach, move, swap, leave-field and server restart, over any number of owners and materials",
 "Material handling spans several messages with deferred state in the translator; no test sends such a sequence.",
 [ENC,CTX,FR],
 [("deferred attachments","materials announced before their owner is on the field",CTX),("left-the-field map","where an owner that left kept its materials",CTX)],
 [("move translation",ENC),("material moves and swaps",FR)],
 ["material lists of every zone on each viewer's board"]))
P.append(p("C05","A board snapshot fully resynchronises a viewer at any moment",
 "Applying a full-board snapshot makes any viewer (new, stale, disconnected for any number of messages, or up to date) hold exactly the engine's piles, zones, materials, life points and chain, with nothing left of what it held before, and the incremental messages that follow keep it exact. A snapshot leaves the turn count alone when it does not carry one.",
 ["histories","fault_sequences","crash_points"],
 "any disconnect point, any prior viewer state, any snapshot position in the history, any continuation",
 "No test applies a snapshot event or continues from one; the result depends on the state the viewer happened to be in.",
 [ENC,PE,FR,CTX],
 [("viewer board","replaced by the snapshot",BRD)],
 [("snapshot translation",ENC),("snapshot application and board clearing",PE)],
 ["viewer board and scoreboard after a resync and after each later message"]))
P.append(p("C06","Scrubbing a duel back and forth is lossless",
 "In a recording board, stepping back over any number of events and forward again, in any order and while further events keep arriving, always reproduces the exact board and scoreboard first shown at that point, down to the identity of each card object. Stepping back to the start yields the initial board and stepping to the end yields the live one.",
 ["histories","schedules"],
 "all event histories (events that support stepping back), all interleavings of backward steps, forward steps and live arrivals",
 "Existing tests undo one addition and one removal; nothing undoes resizes, clears, moves, splices or scalars, nor goes back and forth over a mixed history.",
 [LF,UPE,UN,PE,FR],
 [("operation log and cursor","what each card-creating or card-destroying step did",LF),("value history","previous scalar values",UN)],
 [("inverse event application",UPE),("redo from the operation log",LF)],
 ["board state at every cursor position, every time it is visited"]))
P.append(p("C07","Rewinding and taking another branch forgets the abandoned future",
 "After rewinding a recording board to any point and erasing the later history, events of a different continuation apply as if the abandoned ones had never happened, and stepping back and forth over the shared prefix and the new branch stays exact. Erasing when already at the latest point changes nothing, and cards of abandoned branches never reappear.",
 ["histories","schedules"],
 "all histories, rewind points, repeated branchings and navigation orders",
 "No test calls the history-erasing operation after anything but a trivial history.",
 [LF,UPE],
 [("operation log and cursor","see C06",LF)],[("history erasure",LF)],
 ["board state at every cursor position on each branch"]))
P.append(p("C08","Announcements and requests name the cards and values the engine meant",
 "Every place carried by a translated announcement or request (confirmations, targets, selections, attacks, summons, chain links, position changes, counters, deck-top reveals, selectable cards and zones, sort lists, effect questions) resolves, on a viewer's board at the moment it arrives, to the card or zone the engine meant. The accompanying values (codes, effects, counts, flags, minimums and maximums, phases, dice, coins, the replying player) and the order of entries are the engine's.",
 ["histories","inputs","fault_sequences"],
 "every announcement and request kind, at any point of any history, for any referenced card or zone and any list length",
 "No test decodes an announcement or request, and resolution depends on the board reached by the whole preceding history (e.g. reversed deck positions).",
 [ENC,CTX,PE],[("viewer board","resolves places",FR)],
 [("place and zone reading",ENC),("pile size lookups",CTX)],
 ["each translated message resolved on the viewer's board"]))
P.append(p("C09","Card information sticks to the right card",
 "Information the engine reveals about a card is recorded on exactly that card's object on every viewer's board and stays with it through all later movement until newer information about it arrives; no other card's information changes. The caching and the non-caching reader leave identical information, and the caching reader reports as already known exactly those fields whose value was unchanged.",
 ["histories","inputs"],
 "all interleavings of whole-location and single-card queries (any subset of fields, any values, empty slots, overlay codes) with card movement and resyncs",
 "Query parsing tests use one fixed card and field at a time; the translator's location-wide queries are untested, and persistence across movement is a history property.",
 [ENC,PQ,QI,CARD],
 [("card fields","last known information per card",CARD)],
 [("query translation",ENC),("query application and cache hits",PQ)],
 ["fields of every card object on each viewer's board, and the hit report"]))
P.append(p("C10","The answer a player gives is the one the engine receives",
 "For every request the engine makes, whatever legal answer the player asked picks from the translated request, the response bytes handed back select exactly that option in the engine's own numbering: same card, zone, effect, number, phase, action, order, or the cancel/finish/decline meant. The result depends only on that request and answer, not on earlier answers or on what the output buffer held.",
 ["histories","inputs","fault_sequences"],
 "every request kind, option count and chosen option, any sequence of requests reusing one buffer, with reconnects between request and answer",
 "No test translates a request or an answer.",
 [ENC,DEC],[("response buffer","reused between answers",DEC)],
 [("request translation",ENC),("answer translation",DEC)],
 ["response bytes as parsed by the engine"]))
P.append(p("C11","Players are seated fairly and exactly once",
 "Whatever the order in which clients enter a configuring room, each takes the lowest free seat of the team that has fewer duelists and still has a free seat (first team on ties), and becomes a spectator only when every seat is taken; no two clients share a seat. Team sizes are clamped to between one and three per team whatever options were given, and the host is seated first.",
 ["schedules","configurations","inputs"],
 "all arrival orders interleaved with signals from anyone, all option values",
 "Tests cover a few fixed arrival orders and sizes without interleaved activity.",
 [ROOM],[("team seats and spectators","who sits where",ROOM)],[("seat search and option clamping",ROOM)],
 ["seating as announced to each client"]))
P.append(p("C12","Every client's picture of the room is complete and current",
 "From the events a client was sent, and nothing else, it can rebuild the room: on entering it receives the options and the duelists and spectator count already present, and afterwards every change (arrivals, ready changes, spectator counts, state changes, results) exactly once and in order. All clients therefore agree, with the correct user, seat, host and ready flags, while deck verdicts reach only the client they concern.",
 ["schedules","configurations"],
 "all interleavings of arrivals and signals, every viewpoint (host, duelist, spectator, late arrival)",
 "Tests check event kinds for fixed scripts, not that views built from events agree with the room for every interleaving.",
 [ROOM],[("events sent per client","",ROOM)],[("broadcast and snapshot-on-enter",ROOM)],
 ["event stream of every client"]))
P.append(p("C13","A duel starts only when everyone is really ready",
 "The room leaves configuration if and only if the host asks to start at a moment when both teams have at least one duelist and every duelist's most recently submitted deck was accepted by the validator and they are marked ready; a duelist can only become ready while holding an accepted deck. Each submitted deck is judged as submitted, with the room's banlist, and its verdict (with the validator's reasons on refusal, none on acceptance) is what that client is told.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of arrivals, deck submissions with any verdict sequence, ready toggles and start attempts by anyone",
 "Tests walk single fixed paths; the gate depends on the whole interleaving of several clients' signals.",
 [ROOM],[("deck and ready flags per seat","",ROOM)],[("start gate, deck check, ready handling",ROOM)],
 ["state entered and verdicts sent"]))
P.append(p("C14","The first-turn decision is fair, consistent and asked of the right client",
 "When the decision phase starts everyone is told; by host's choice only the host is asked; by dice every roll pair sent is the two teams' die faces 1-6 in draw order, re-rolled on ties only, and the higher roll wins; by coin heads means the first team and tails the second. Everyone receives the same single result, then exactly the first duelist of the winning team is asked, and a host's later choice is relayed to everyone unchanged.",
 ["schedules","inputs","configurations"],
 "all random-number sequences (including arbitrarily long tie runs and full-range generator values), seatings, methods and interleavings with other signals",
 "Tests use one fixed generator seed per method; ties and extreme draws are not reached.",
 [ROOM],[("random generator","injected",ROOM)],[("first turn decision",ROOM)],
 ["events received by each client after the start"]))
P.append(p("C15","Out-of-turn, stale, malformed or duplicate room signals are harmless",
 "A signal from someone not entitled to send it, for another phase, repeated without effect, empty, or carrying an out-of-range value changes nothing: no event is sent to anyone because of it and the later course of the room is exactly as if it had never been sent. This holds for spectators, clients that never entered, and any interleaving with legitimate signals.",
 ["schedules","fault_sequences","inputs"],
 "any injection of illegitimate, duplicated or late signals anywhere in any room history",
 "Tests send a handful of such signals at fixed points and do not compare the later course.",
 [ROOM],[("room state","",ROOM)],[("signal dispatch and entitlement checks",ROOM)],
 ["events sent with and without the injected signals"]))
P.append(p("C16","Concurrent duels and rooms never influence each other",
 "Several duels, viewers and rooms hosted by one process, on one or several threads and interleaved at any point, each produce exactly the messages, boards, answers and room events they produce when run alone. No unsynchronised state is shared between them.",
 ["schedules"],
 "all interleavings of independent duels and rooms, down to inside single operations",
 "Every test uses one object at a time on one thread.",
 [ENC,DEC,FR,PE,CTX,ROOM],[],[("absence of process-wide mutable state",ENC)],
 ["full output of each instance compared with its solo run"]))
P.append(p("C17","A duel can be rebuilt from its log after a crash at any point",
 "Re-translating a recorded prefix of core messages with a fresh translator yields byte-for-byte the messages sent the first time, wherever the crash fell, and continuing from there is indistinguishable from never having crashed; re-translation does not depend on prior memory contents or on how the output arena was used. Replaying the recorded translated messages (directly or through a saved replay) into a fresh board yields the same board.",
 ["crash_points","histories","fault_sequences"],
 "every crash point including inside multi-message sequences, torn log tails, repeated crashes, any memory contents",
 "No test re-translates anything or constructs the translator's context more than trivially.",
 [ENC,CTX,PE,H+"proto/replay.proto"],[("encode context","all translator state",CTX)],[("deterministic translation from log",ENC)],
 ["serialized messages before and after recovery; replayed boards"]))
P.append(p("C18","Card objects live exactly as long as the card is on the board",
 "On a live board the card objects in existence are exactly the cards shown, each present at one place only; each object is obtained from the board's builder once per card appearing and released once when its card leaves. On a recording board no object reachable by stepping back or forward is released early, and everything is released when the board is.",
 ["histories","crash_points"],
 "all histories, snapshots, teardown at any point, recording and live boards",
 "Tests do not track object lifetimes across histories.",
 [FR,LF],[("owned card list","",FR)],[("construction and destruction of cards",FR)],
 ["instrumented construction and destruction of card objects"]))
P.append(p("C19","A duel's outcome is reported exactly",
 "When the engine ends a duel viewers are told the winner, or a draw, and the engine's win reason; a match-win reason is reported if and only if the engine declared one in that duel, and it is the latest one declared. Nothing else ever ends a duel.",
 ["histories","fault_sequences"],
 "all histories, any win values, match-kill declared never, once or repeatedly at any distance before the end, any memory contents, server restarts in between",
 "No test translates an end-of-duel message.",
 [ENC,CTX],[("match win reason","remembered between messages",CTX)],[("outcome translation",ENC)],
 ["finish event seen by each viewer"]))
P.append(p("C20","Bit choosing helpers select the right bits",
 "Choosing at most n set bits from either end of an unsigned value returns exactly that many of the outermost set bits (or all, if fewer) for every unsigned width.",
 ["inputs"],"all values, counts and unsigned widths",
 "Tests sample a few 32-bit values.",[H+"bit.hpp"],[],[("bit helpers",H+"bit.hpp")],["return value"]))
P.append(p("C21","Places are totally ordered",
 "The ordering of places is a strict weak ordering consistent with equality of all their fields, for all field values.",
 ["inputs"],"all pairs and triples of places","Tests sample a few places.",[H+"proto/duel/data.hpp"],[],[("place ordering",H+"proto/duel/data.hpp")],["comparison result"]))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("schema ok",len(P))
except ImportError: print("written",len(P))
