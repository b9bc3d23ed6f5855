#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
TM = "src/col2d/shape/tilemap.rs"
PUB = "src/utils/publisher.rs"
LMD = "src/col2d/shape/local_minkowski_diff/mod.rs"
LMV = "src/col2d/shape/local_minkowski_diff/v.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CH = ("chunks", "the tiles of a map, 16x16 tiles per chunk, keyed by chunk position", TM + ":chunks")

p("C01", "A tile reads back what was last written to it, across saves and crashes",
  "Reading a tile of a tilemap returns the value last written to that position, and zero if nothing was written there or it was removed since, for every 32-bit coordinate pair and every tile value. "
  "Writing or removing one tile never changes what any other position or any other map reads. "
  "This holds for every history that mixes writes, removals, reads, saves, loads and process crashes: after a restart, a map loaded from a file reads as it did when that file was last saved successfully (or as it read in the save that the crash interrupted).",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "All histories of set/remove/read/save/load on several maps and files, all coordinates and tile values, all I/O faults and crash points between and inside the operations, all hash seeds.",
  "The unit tests set a single tile once and compare chunk counts; they never remove, never use negative or extreme coordinates, never save to a file and never crash, so no history longer than one step is reached.",
  [TM], [("set, get and remove of a tile", TM + ":set_tile/get_tile/remove_tile"),
         ("splitting a position into chunk and local part", TM + ":tile_to_chunk_and_local_pos"),
         ("saving and loading", TM + ":save/load")], [CH], ["get_tile", "get_chunk", "load"])

p("C02", "The event list of a tilemap keeps an observer exactly in step",
  "The events a tilemap records name, in order, exactly the changes made to it: a chunk-created event when a chunk starts to exist, a chunk-removed event when it stops existing, a chunk-changed event when a tile of an existing chunk takes another value and the chunk stays. "
  "An operation that changes nothing records nothing, and reading, querying, saving (successfully or not) and loading record nothing, so a freshly loaded map has no events. "
  "Therefore an observer that drains the events at any moments it likes, and re-reads only the chunks they name, always holds the same tiles and the same set of chunks as the map.",
  ["histories", "fault_sequences"],
  "All histories of edits interleaved with draining of the events at arbitrary moments, saves that succeed or fail through I/O faults, loads and restarts.",
  "No test looks at the events at all; whether a mirror stays in step depends on the whole order of edits, removals, drains and failed saves.",
  [TM, PUB], [("events pushed by edits", TM + ":set_tile/remove_tile"), ("append-only event list", PUB + ":Ledger::notify"),
              ("events are not stored in files", TM + ":serde(skip)")],
  [CH, ("events", "events not yet drained by the user", TM + ":events")], ["Tilemap::events", "get_chunk"])

p("C03", "Saving and loading a tilemap is lossless however the I/O is chopped up",
  "If a tilemap is saved successfully and the file is loaded, or the map is serialised to a byte stream and read back, the result has the same tile at every position and the same set of existing chunks, for maps of any size and shape. "
  "This does not depend on how the operating system splits, shortens, interrupts or delays the individual reads and writes, on hash seeds, on what the destination file held before (longer, shorter, nothing), or on how many save/load generations the map went through. "
  "Neither operation changes the map that is saved.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "All maps, all partial/interrupted read and write sequences, all previous file contents, all hash seeds of writer and reader.",
  "The only tests round-trip one default chunk and one single-tile map through a string and compare the number of chunks; no file, no partial or interrupted I/O, no tile comparison.",
  [TM], [("buffered write with explicit flush", TM + ":save"), ("buffered read", TM + ":load"),
         ("chunk map stored as a list of pairs", TM + ":serde_as")], [CH], ["save", "load", "serde Serialize/Deserialize"])

p("C04", "A storage failure is always reported, never turned into wrong data",
  "If a save returns success, the file holds the complete map, and still does after a power cut at the worst moment leaves the old file or the new one whole. "
  "If any step of a save or a load fails for good (disk full, I/O error, permission, too many open files, read error half way), the call returns an error: it does not panic, does not report success with part of the data missing, and a load never returns a map built from part of a file. "
  "The map in memory, its events and other files are unaffected by the failure.",
  ["fault_sequences", "inputs", "crash_points"],
  "Every system call a save or load makes, each hard error the system can return there (once or from then on), disk-full at every byte, power cut after every acknowledged save.",
  "No test calls save or load at all, and no unit test can make an individual system call fail.",
  [TM], [("error propagation out of save", TM + ":save"), ("error propagation out of load", TM + ":load")],
  [CH], ["the io::Result of save and load", "contents of the files afterwards"])

p("C05", "A crash or failure during a save never destroys the previous save",
  "When the process is killed, the machine loses power, or an I/O error stops the operation at any point during a save, loading that file afterwards gives either the map as it was in the previous successful save or the complete new map: never an error, a truncated file or a mixture. "
  "A save that returned success before the process was killed is the one that is loaded. "
  "A save that returned an error leaves the previous save loadable.",
  ["crash_points", "fault_sequences", "histories"],
  "Kill and power-loss (with lost, reordered and torn un-synced writes) at every point of every save in a history of saves, and I/O errors at every call.",
  "Unit tests cannot stop the process or drop un-synced writes at a chosen instruction; no test saves to a file.",
  [TM], [("write to the side, sync, then rename over", TM + ":save")],
  [("save file", "the last successfully saved map", TM + ":save")], ["load after restart"])

p("C06", "A damaged file is rejected or gives a fully usable map",
  "Loading a file that was truncated, bit-flipped, edited, overwritten with other data or stitched together from several saves either returns an error or returns a map that behaves like any other: every tile can be read, written, removed, queried and saved without a panic, and behaves as a tile afterwards. "
  "The load itself never panics, never hangs and never uses memory out of proportion to the size of the file.",
  ["inputs", "fault_sequences"],
  "All stored-data corruptions (bit flips, byte edits, digit edits, lost or zeroed blocks, truncation, duplicated and swapped blocks, foreign data) of files written by save, followed by any use of the loaded map.",
  "No test ever deserialises anything but its own pristine output.",
  [TM], [("deserialisation and its checks", TM + ":Chunk/Tilemap Deserialize"), ("load", TM + ":load")],
  [CH], ["the io::Result of load", "every tile operation on the loaded map"])

p("C07", "Once faults stop, saving and loading work again",
  "After any sequence of failed saves, failed loads, crashes and power cuts, as soon as the faults stop the very next save of a map to any path succeeds and a load of that path returns that map, within the same process or a restarted one. "
  "Failures leave behind no state, in memory or on disk, that makes a later save or load fail, return old data or wait for ever.",
  ["fault_sequences", "crash_points", "histories"],
  "All sequences of I/O errors, disk-full episodes, kills and power losses followed by a fault-free period.",
  "Needs a failure to be injected first; no test performs a failing save or load.",
  [TM], [("save opens, writes and replaces its files from scratch", TM + ":save"), ("load keeps no state", TM + ":load")],
  [], ["save and load after the last fault"])

p("C08", "The library is silent and independent of its process environment",
  "Collision queries, map operations, saving, loading and event publishing write nothing to standard output or standard error, and give bit-for-bit the same result whether these streams work, are closed or fail. "
  "Results also do not depend on which log level is enabled, on a logger that is slow or itself calls the library, on the clock, or on per-process hash seeds, process id or allocation patterns.",
  ["configurations", "fault_sequences", "inputs"],
  "All queries and map operations under all combinations of: failing/closed standard streams, log level, logger behaviour, clock jumps, hash seeds and process ids.",
  "Tests run once in one environment with working output streams and a fixed log level, so environment dependence cannot show.",
  ["src/lib.rs", LMD, LMV, TM], [("all diagnostics go through optional logging macros", "src/lib.rs:trace!/debug!/info!/warn!/error!"),
    ("collision and distance solver diagnostics", LMV)], [], ["results of queries", "bytes written to stdout/stderr"])

p("C09", "A query's answer does not depend on other queries before or beside it",
  "Every collision, penetration, distance and signed-distance query gives, bit for bit, the answer it gives when it is the first call of a fresh process: whatever queries were made before it in the same process, whatever queries other threads are running at the same instant on the same or other shapes, and also when it is made from inside a user-supplied shape or logger that is serving another query. "
  "Concurrent queries never deadlock and never change the shapes they are given.",
  ["schedules", "histories", "inputs"],
  "All histories of queries over all built-in and user-defined shape and transform pairs, all interleavings of several querying threads down to single memory accesses, all nestings.",
  "Tests make isolated queries from one thread each and never compare the answer of a query after or beside others with its answer alone.",
  [LMD, LMV, "src/col2d/detection/sdfv_minkowski.rs", "src/col2d/collider2d.rs", "src/col2d/shape/mod.rs"],
  [("queries take shared references and keep no state between calls", LMD), ("per-call simplex and edge lists", LMV)],
  [], ["return values of collides/penetrates/distance/sdf/sdfv and their _rel forms"])

p("C10", "A panic in user code leaves the library working as before",
  "If user-supplied code called by the library (a shape's support function, a transform, a logger, an event subscriber, an event's hash or equality) panics and the caller catches the panic, the panic arrives at the caller unchanged, nothing is poisoned or left locked, and every later query, map operation, save and publication on every thread behaves as if the interrupted call had not been made. "
  "The process is never aborted by it.",
  ["fault_sequences", "histories", "schedules"],
  "A panic at every call the library makes into user code, in every kind of operation, followed by any further operations on the same or another thread.",
  "Tests contain no panicking user code.",
  [LMD, LMV, PUB, TM], [("no state is kept outside the call", LMD), ("notification iterates over the subscribers without interior state", PUB + ":CallbackPublisher::notify")],
  [], ["results after a caught panic"])

p("C11", "Queries end in bounded work even when shapes misbehave",
  "Every collision, penetration and distance query on finite shapes ends after a bounded amount of work (a fixed bound on the calls it makes to the shapes' support functions, on computation and on memory), even if a user-supplied shape misbehaves in the middle of the query: returns points that are NaN, infinite, huge, or inconsistent from call to call, or is stalled for a long time. "
  "It then returns or panics; it never hangs, never overflows the stack, never aborts the process and never allocates without bound.",
  ["fault_sequences", "inputs"],
  "All sequences of faulty answers of the support functions during a query, for all solver modes and transforms.",
  "Tests only use well-behaved shapes; termination for every sequence of answers is outside what samples of good shapes show.",
  [LMD, LMV], [("iteration limits of the two solvers", LMV), ("progress checks of the two solvers", LMD)],
  [], ["number of support-function calls per query", "steps and memory per query"])

p("C12", "A callback publisher calls every subscriber exactly once per event, in order",
  "Every event given to a callback publisher reaches each subscriber attached at that moment exactly once, in the order of attachment and in the order of the events, unchanged, and is delivered before the notification returns; a later subscriber gets no earlier event. "
  "If a subscriber panics, those attached before it have had the event exactly once, and later events again reach all subscribers exactly once. "
  "This holds for publishers driven from several threads under a lock, for subscribers that publish to other publishers, and independent publishers never affect each other.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of attach and notify on several publishers from several threads, all interleavings, panics in subscribers at any delivery, nested publication.",
  "No test uses the publishers.",
  [PUB], [("subscriber list in attachment order, synchronous delivery", PUB + ":CallbackPublisher")],
  [("subscribers", "attached callbacks in order", PUB + ":CallbackPublisher")], ["calls seen by each subscriber"])

p("C13", "Event ledgers lose, duplicate and reorder nothing",
  "A list ledger holds exactly the events notified since it was last drained, in notification order and unaltered; a set ledger holds exactly the distinct events notified, each once. "
  "This holds for any number of events, any draining moments, any number of threads notifying under a lock in any interleaving, any hash seeds and hash collisions, and after events whose hash or equality function panicked during insertion (the failed event aside).",
  ["histories", "schedules", "fault_sequences"],
  "All histories of notify and drain from several threads, all interleavings, all hash seeds, degenerate hash functions, panics inside hash and equality at any call.",
  "No test uses the ledgers.",
  [PUB], [("append to a list", PUB + ":Ledger::notify"), ("insert into a set", PUB + ":HashsetLedger::notify")],
  [("events", "pending events", PUB + ":Ledger/HashsetLedger")], ["the public events collection"])

p("C14", "What a tilemap answers depends only on its tiles, not on how it came to be",
  "Point queries against a tilemap and the resolution of a ball or a box against it give bit-for-bit the same answer on any two maps that have the same tile at every position, whatever edits, removals, saves, loads, failed operations, crashes or earlier queries produced them, and whatever the hash seeds. "
  "Queries and resolutions change neither the tiles nor the events, and a point query reports a collision exactly when the tile it falls on is not zero.",
  ["histories", "fault_sequences", "inputs"],
  "All pairs of histories leading to the same tiles (including empty chunks left behind, save/load generations, restarts), all query points, transforms, ball and box sizes and directions.",
  "The one test near this builds a map and a ball and asserts nothing.",
  [TM, "src/utils/rect2.rs"], [("point query", TM + ":sdfv_common_rel"), ("ball and box resolution", TM + ":simple_resolve_ball/simple_resolve_box"),
      ("visiting the tiles of a rectangle in a fixed order", "src/utils/rect2.rs")], [CH], ["collides/penetrates of a map with a point", "simple_resolve_ball/box"])

p("C15", "Maps shared between threads stay consistent",
  "While several threads read, query, resolve against and save one shared map, each call returns what it would return alone, whatever the interleaving; and when the map is edited under a reader-writer lock, every reader sees the map exactly as some prefix of the edits left it. "
  "Saves and loads running at the same time, of the same or different maps to different files, do not affect one another, and simultaneous saves to one file leave one of the saved maps in it complete. "
  "None of these calls deadlocks or waits for ever.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings, down to single memory accesses and system calls, of several threads reading, querying, saving, loading and editing (under a lock), with benign I/O perturbation.",
  "No test shares a map between threads or saves concurrently.",
  [TM], [("reads and saves take a shared reference and use no hidden state", TM), ("each save uses its own files until it is complete", TM + ":save")],
  [CH], ["get_tile, queries, save and load from several threads"])

p("C16", "Map files written by earlier versions keep loading",
  "A map file in the format of the published version (0.1.5) loads into the map it was saved from, tile for tile, independent of the order in which its chunks and fields are listed, of white space, and of how the reads are chopped up. "
  "Once loaded it can be edited, saved and loaded again like any other map.",
  ["configurations", "histories", "fault_sequences"],
  "All maps saved by the published version, all chunk orders that version can produce, all read splittings, followed by edit/save/load generations with the current version.",
  "Tests only read back what the same build has just written, so a change of the format goes unnoticed.",
  [TM], [("field names and layout of the stored form", TM + ":Tilemap/Chunk Serialize/Deserialize"), ("tile position to chunk mapping", TM + ":tile_to_chunk_and_local_pos")],
  [CH], ["load of stored files"])

# ---- listed, but outside what this technique can decide ----
DET = "src/col2d/detection"
p("C30", "All query kinds agree with each other and with geometry",
  "For every pair of shapes and placements, the collision test, penetration, distance and signed distance agree with one another and with the exact geometry of the shapes within floating-point tolerance.",
  ["inputs"], "All shapes, sizes and placements.", "Tests sample a few dozen placements.",
  [LMD, LMV, DET + "/sdfv_minkowski.rs"], [("GJK and EPA solvers", LMV), ("closed forms for balls and boxes", "src/col2d/shape/box2d/v_ball.rs")])
p("C31", "A penetration vector separates the shapes, a distance is the true gap",
  "Moving one shape by the reported penetration vector separates the two shapes up to tolerance and no shorter move does; the reported distance equals the length of the shortest connection.",
  ["inputs"], "All shapes, sizes and placements.", "Tests sample a few placements of a few shapes.",
  [LMV, "src/col2d/shape/box2d/mod.rs"], [("EPA", LMV)])
p("C32", "Queries are symmetric and invariant under rigid motion",
  "Swapping the two shapes mirrors the answer, and moving both shapes by the same rigid motion rotates the answer with them.",
  ["inputs"], "All shapes, placements and motions.", "Tests check single swaps.",
  [DET + "/sdfv_common.rs", "src/col2d/collider2d.rs"], [("relative placement", "src/col2d/transformation2d/mod.rs")])
p("C33", "Transforms compose, invert and apply consistently",
  "Applying a transform and then its inverse gives back the point, and composing transforms equals applying them one after the other.",
  ["inputs"], "All transforms and points.", "Tests check a handful of transforms.",
  ["src/col2d/transformation2d/mod.rs", "src/col2d/transformation2d/axis_transform2d.rs"], [("transform types", "src/col2d/transformation2d/transform2d.rs")])
p("C34", "Bounding boxes contain their shapes and extreme points are extreme",
  "The symmetric bounding box of a shape contains it, and the extreme point in a direction lies on the shape and no point of the shape lies further.",
  ["inputs"], "All shapes and directions.", "Tests check one ball.",
  ["src/col2d/detection/extreme_point.rs", "src/col2d/shape/poly2d/mod.rs"], [("extreme points", "src/col2d/shape/poly2d/mod.rs:extreme_point")])
p("C35", "Tile rectangles visit every tile exactly once in the requested order",
  "Iterating over a tile rectangle visits every position in it exactly once in the order of the chosen direction, and padding enlarges it on all sides.",
  ["inputs"], "All rectangles and directions.", "No test iterates over a rectangle.",
  ["src/utils/rect2.rs"], [("rectangle iterators", "src/utils/rect2.rs")])
p("C36", "The 3D shapes answer like their 2D counterparts",
  "3D boxes, balls and points answer collision, penetration and distance queries consistently with exact geometry.",
  ["inputs"], "All 3D shapes and placements.", "The 3D feature is not part of any test build.",
  ["src/col3d/mod.rs"], [("3D shapes", "src/col3d/shape/box3d.rs")])
p("C37", "A game-engine transform places shapes like the library's own transform",
  "A query with the optional game-engine transform gives the same answer as with the library's own transform of the same position, rotation and scale.",
  ["inputs"], "All transforms and shapes.", "No test uses the engine's transform.",
  ["src/col2d/transformation2d/bevy_transform.rs"], [("engine transform", "src/col2d/transformation2d/bevy_transform.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
