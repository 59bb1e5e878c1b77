import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CB="async_ui_web_core/src/combinators/"
p("C01","Combinators return the right results at the right positions",
 "join resolves exactly when every subfuture has resolved and returns all outputs in input order; try_join/race_ok do the same for all-Ok/all-Err, and otherwise (as race always does) resolve as soon as a polled subfuture yields the deciding Err/Ok/any output, returning exactly that subfuture's output. This is the same for tuples, arrays and Vecs of every supported size, whatever order and batching the subfutures complete in (join/try_join/race_ok of nothing resolve at once, race of an empty array or Vec never resolves).",
 ["schedules","inputs","configurations"],"every combinator x container shape x size, every assignment of outcomes (Ok/Err/never) and every order/batching in which subfutures become ready",
 "Existing unit tests use one or two sizes and subfutures that complete on the first poll or in one fixed order; they never explore completion orders, batches, self-waking or sizes past a machine word.",
 [CB+"common/tuple.rs",CB+"common/array.rs",CB+"common/vec.rs",CB+"join",CB+"try_join",CB+"race",CB+"race_ok"],
 [("per-child completion dispatch and early exit","CombinatorBehavior*::maybe_return / when_completed in join|try_join|race|race_ok, driven by poll in combinators/common")])
p("C02","Combinators lose no wakeup and poll only subfutures that were woken",
 "Whenever a combinator is pending and an unfinished subfuture has been woken (from outside, by itself or by a sibling, including while the combinator is being polled), the most recently supplied parent waker has been woken since the last poll began, and the next poll polls that subfuture. A subfuture is polled only on its first turn or after being woken since the combinator poll in which it was previously polled began, is never polled after completing, and the parent is never woken unless some subfuture's waker was woken.",
 ["schedules","histories"],"every interleaving of polls (with changing parent wakers), wakes of current or stale child wakers inside or outside polls, and completions",
 "Tests drive combinators with block_on, which re-polls on any wake and so hides both lost wakeups that a sibling's wake masks and needless polling.",
 [CB+"utils/wakers",CB+"common"],
 [("readiness bitmap + shared parent waker","combinators/utils/wakers/{array,vec}/{readiness,waker_*}.rs"),("polling loop","combinators/common/{tuple,array,vec}.rs")],
 [("readiness","which children were woken since last polled"),("parent waker","waker to notify")])
p("C03","Combinators drop every subfuture and output exactly once and leak nothing",
 "Every subfuture handed to a combinator is dropped exactly once, not before it finished unless the combinator itself has resolved or is being dropped, and every output a subfuture produced is either returned to the caller or dropped exactly once. This holds if the combinator is dropped at any point (never polled, partly complete, resolved) and when child wakers outlive it; waking or dropping such wakers afterwards is harmless, and once they are gone no clone of the parent waker remains.",
 ["schedules","crash_points"],"every point at which a combinator can be dropped, in every completion state, for every combinator/shape, with wakers retained arbitrarily long",
 "Existing tests check results only; none counts drops of subfutures, of partially collected outputs, or of wakers.",
 [CB+"common",CB+"utils"],
 [("manual drop of pending children and of stored outputs","combinators/common/{tuple,array,vec}.rs Drop/pinned_drop"),("reference counting of waker storage","combinators/utils/wakers/shared_arc.rs")])
p("C04","select!, meanwhile and pend_after mean what they are documented to mean",
 "select! runs all branches concurrently, takes the output of a branch that finishes first, runs exactly that branch's handler, and drops the others; f.meanwhile(g) resolves exactly when f does and with f's output, running g alongside and dropping g when f finishes. g.pend_after() never resolves, polls g until g finishes, drops g at that moment and never polls it again.",
 ["schedules","programs"],"every completion order of the branches / effect and every point of dropping",
 "No existing test covers these; documentation examples are compile-only.",
 ["async_ui_web_macros/src/select.rs",CB+"extras/mod.rs"],
 [("select! expansion to race","async_ui_web_macros/src/select.rs"),("PendAfter","combinators/extras/mod.rs")])
p("D01","Rendered DOM order always equals composition order",
 "At every moment, the nodes a UI program has on screen appear, under the DOM parent of their enclosing element, in exactly the order given by the composition structure (argument order of join/race/meanwhile, program order, nested arbitrarily, through elements, lists and slots). This holds regardless of the order, batching and timing in which the pieces start, finish, disappear and reappear.",
 ["programs","schedules","histories"],"every composition tree of elements/text/join/race/sequencing/lists/slots and every order in which its parts render, complete and re-render",
 "There are no DOM tests at all on the host; a browser test could sample only a few trees and one timing each.",
 ["async_ui_web_core/src/context.rs","async_ui_web_core/src/position.rs","async_ui_web_core/src/node_container.rs","async_ui_web_core/src/node_sibling.rs"],
 [("position path in an ordered map + insertBefore next higher","DomContext::add_child"),("index assigned by combinators","combinators/common: DomContext::Child{index}")],
 [("NodeGroup","ordered map from position to DOM node of one container")])
p("D02","Finished or dropped UI removes exactly the nodes it rendered",
 "When the future of a piece of UI is dropped (because it was awaited to the end, cancelled, replaced, or lost a race), every node it had on screen is removed and no other node is: siblings, ancestors and nodes that other code placed in the same DOM parent keep their identity and relative order. Nothing remains on screen from UI whose future no longer exists, and removal never raises a DOM error or panics, at any nesting depth.",
 ["programs","schedules","crash_points"],"every composition tree and every point in its life at which any subtree finishes or is dropped, with or without foreign nodes present",
 "Requires counting nodes at every drop point in arbitrary trees; tests have no DOM.",
 ["async_ui_web_core/src/context.rs","async_ui_web_core/src/dropping.rs","async_ui_web_core/src/node_container.rs","async_ui_web_core/src/node_sibling.rs"],
 [("remove on drop","PinnedDrop of ContainerNodeFuture / SiblingNodeFuture"),("suppress nested removals while an ancestor is being dropped","DetachmentBlocker")],
 [("dropping guard","set while an ancestor whose node is already detached is being dropped")])
p("D03","Mounting and unmounting an application is clean",
 "mount_at renders the app into the given node without disturbing what was already there, and dropping the returned task at any time (before the first run, or with any amount of UI, events and lists on screen) removes exactly that app's nodes, by the time the executor has next run, without panicking, and leaves other mounted apps working. An app whose root future completes yields its output through the task and removes its UI.",
 ["programs","crash_points"],"every app program and every point of its life at which its mount handle is dropped, with several apps mounted at once",
 "No test mounts an app; unmounting at an arbitrary moment needs a DOM and a scheduler under test control.",
 ["async_ui_web/src/mount.rs","async_ui_web_core/src/node_container.rs","async_ui_web/src/executor.rs"],
 [("root container","ContainerNodeFuture::new_root and its drop"),("task handle","mount_at")])
L="async_ui_web/src/lists/"
p("L01","DynamicList shows exactly its items, in the order its operations define",
 "After any sequence of insert, remove, move_before, swap and retain, and of item futures rendering, changing or completing, the list shows for each key the UI of the future inserted last under that key, as one contiguous group, in the order defined by list semantics (insert/move place just before the named key, or at the end for None or an unknown key). Return values and contains_key agree with that model, while the list is rendered the future and nodes of a removed or replaced item are gone by the time the executor has next run, and items that stay keep their futures and nodes.",
 ["histories","inputs"],"every sequence of list operations with every argument combination (adjacent keys, same key, absent keys, re-inserted keys), interleaved with item activity",
 "No test exercises the list against a DOM; errors depend on adjacency and on earlier operations.",
 [L+"dynamic_list.rs"],
 [("comment markers around every item; moving marker-delimited ranges","DynamicList::{insert,remove,move_before,swap,retain}, move_nodes_before")],
 [("items","key -> task and its two markers")])
p("L02","A list can be edited, shown, hidden and shown again without losing anything",
 "A list may be edited before, during and after being rendered; when its render future runs it appears at that place in composition order, between its earlier and later siblings even if those render later, and when that future is dropped all its nodes leave the page. Rendering it again shows the same item futures with their state, in the current order, and edits made while it is hidden take effect.",
 ["histories","schedules"],"every interleaving of edits with render/drop/re-render of the list and with siblings appearing before or after it",
 "Needs a DOM and control over when siblings render; there is no test.",
 [L+"dynamic_list.rs","async_ui_web_core/src/node_sibling.rs"],
 [("switching the containing node between page and fragment","DynamicList::render and its guard")])
p("L03","DiffedList displays the given keys, in order, keeping retained items",
 "After update(keys) with distinct keys the list shows exactly those keys' UI in the given order. Keys present in consecutive updates keep the same future (the renderer is called exactly once for each newly appearing key and never for a retained one), futures of vanished keys are dropped, and contains_key reflects the last update.",
 ["inputs","histories"],"every pair/sequence of key vectors (all permutations, insertions, deletions)",
 "The reordering algorithm's correctness depends on the particular permutation; tests cover none.",
 [L+"diffed_list.rs"],[("diff by walking previous keys","DiffedList::update")])
p("L04","ModeledList mirrors its ListModel however the model was edited",
 "ListModel's editing methods act on its contents exactly like the Vec methods they are named after, and after update(model) with keys that are unique at all times the list shows exactly the model's keys in order, whatever edits happened since the previous update: many or few, through modify_vec, with a different or cloned model, or skipping updates. A key that stayed in the model between updates of the same model keeps its future (renderer not called again), added keys are rendered, and removed keys' futures are dropped.",
 ["histories","inputs"],"every sequence of model edits, interleaved with updates, model clones and switches between models, with list lengths around the log-size limit",
 "Whether the change log or the full rebuild is used depends on history length vs. list length; tests cover none.",
 [L+"modeled_list.rs"],[("bounded change log with version arithmetic","ListModel::add_change, ModeledList::update")],
 [("changes/version","edit log since some version"),("unique","identity of the model instance")])
p("L05","VirtualizedList always shows the visible window of items, once each, in order",
 "For items of one size: once rendered, after a scroll to a new position and after set_num_items, when the page has come to rest (all notifications handled, which takes finitely many steps), the rendered items are a contiguous run of distinct indices below num_items, in order, covering every index that intersects the viewport, and not much more than the surroundings of the viewport. The two spacers stand for the items not rendered (zero when there are none on that side, the same size per item otherwise). Items that leave the window are dropped and rendered again when they come back; scrolling does not render anew the items that stay. When the list is no longer rendered its scroll listener and observer are gone.",
 ["inputs","histories"],"every sequence of scrolls, item counts (growing and shrinking, also set by an item while it renders), mounts and unmounts, for any item size, viewport size and surroundings",
 "Geometry-driven; no test and no browser layout available.",
 [L+"virtualized_list.rs"],[("range computation from bounding rects","VirtualizedList::update_visible")])
p("S01","DynamicSlot shows exactly the most recently set future",
 "A rendered slot shows the UI of the last future given to set_future, or nothing after clear_future or before the first set, whatever order and batching of calls, including calls before rendering and calls made by the slotted future itself. The previous future is dropped with its UI when replaced or cleared, the slot is woken by every set/clear, and a slotted future that has finished is never polled again.",
 ["schedules","histories"],"every sequence of set/clear/wake/poll/drop, with slotted futures that complete, re-enter the slot or stay pending",
 "No tests; depends on interleavings of messages, wakes and completions.",
 ["async_ui_web/src/components/dynamic_slot.rs"],[("one-place message channel with waker","DynamicSlot::{render,set_future,clear_future}")])
p("O01","Dropdown's options and value always match what the program set or user chose",
 "After update_options with distinct options the select element contains exactly those options with those texts in that order, reusing the elements of retained options, and a selected option that is still present stays selected. value() returns the option chosen last by the user or by set_value if it is still offered, and None after set_value(None) or set_value of an unknown option or when the selected option disappeared; contains_key tells whether an option is offered.",
 ["histories","inputs"],"every sequence of update_options, set_value, and user selections",
 "No tests; depends on permutations of options and on selection history.",
 ["async_ui_web/src/components/dropdown.rs"],[("diff by walking previous options","Dropdown::update_options"),("selection memory","Dropdown::{value,set_value}")])
p("E01","Events reach waiting code: latest kept, none lost, handled synchronously",
 "Once an event future/stream has been polled, each matching event dispatched on its target wakes the most recent poller, and the next poll yields the latest not yet delivered event, each event at most once, in order and with the right event object. The app gets to handle the event during its dispatch, before the browser's default action (events that the app's own code dispatches while it is running are handled as soon as that code yields), and events dispatched before the first poll or to other targets or of other types are not delivered.",
 ["schedules","histories"],"every interleaving of first polls, dispatches (several between polls, nested dispatches), re-polls with different wakers, and drops, over several streams and targets",
 "No test dispatches events; ordering between dispatch, wake and executor run is what matters.",
 ["async_ui_web_html/src/event_handling.rs","async_ui_web_core/src/executor.rs"],[("listener closure stores last event, wakes, runs executor","EventFutureStream::poll_next")])
p("E02","Event listeners exist exactly while their future or stream is live",
 "An event future/stream registers exactly one listener, with the requested event type and capture/passive options, on its target at its first poll, and removes it when dropped. No listener outlives its stream (no closure is called after being dropped) and polling again never adds another.",
 ["histories","configurations"],"every combination of options and every point of dropping, for several streams on the same target and event",
 "Leaks are invisible to result-checking tests; none inspects listeners.",
 ["async_ui_web_html/src/event_handling.rs"],[("add on first poll, remove in Drop","EventFutureStream")])
p("R01","The root executor runs every scheduled task, without re-entrancy or lost wakeups",
 "Whenever a task spawned on the app executor, or a mounted app, has been woken, then it is polled again without further external stimulus once pending timers have run; this also holds for wakes that occur during a run, inside an event handler, or before the first run. Root polls are never nested inside one another, at most one timer is outstanding for a batch of wakes, and nothing is polled when nothing was woken.",
 ["schedules"],"every interleaving of spawns, wakes, timer firings, event-triggered immediate runs and nested run requests",
 "Races between the scheduled flag, the active flag and the timer are schedule dependent; no test.",
 ["async_ui_web_core/src/executor.rs","async_ui_web/src/executor.rs"],[("scheduled/active flags around the poll loop","run_now / schedule")],
 [("scheduled","a wake has been requested"),("active","a run is in progress")])
XF=["x-bow/src/wakers.rs","x-bow/src/hash_visitor.rs","x-bow/src/until_change.rs"]
p("X01","until_change fires iff this data or something enclosing it was mutably accessed",
 "A change stream on a path stays pending on its first poll, and on each later poll fires exactly when, since its previous poll, a notifying mutable access (borrow_mut/borrow_opt_mut guard dropped, set, set_opt, notify_changed) happened at that path or at a prefix of it in the same store. Accesses to descendants, siblings or other keys/indices, failed accesses, and non-notifying borrows do not fire it; any number of accesses between two polls fire it once.",
 ["histories","programs"],"every history of listener creation/poll/drop and mutation over arbitrary path trees (struct fields, enum variants, Vec indices, map keys, nested)",
 "Existing tests check a handful of fixed paths; the guarantee quantifies over all pairs of paths and all subscription histories.",
 XF+["x-bow/src/borrow_mut_guard.rs"],[("hash of each path prefix keys a versioned waker list","HashVisitor::finish_one, StoreWakers, UntilChange::poll_next")],
 [("version per entry","number of changes seen while somebody listens")])
p("X02","until_bubbling_change fires iff this data or its contents were mutably accessed",
 "A bubbling stream on a path stays pending on its first poll, and on each later poll fires exactly when, since its previous poll, a notifying mutable access happened at that path or at any path extending it in the same store. Accesses to enclosing data, siblings or unrelated data do not fire it.",
 ["histories","programs"],"every history of bubbling and ordinary listeners and mutations over arbitrary path trees",
 "Same as X01: tests sample few paths and no subscription churn.",
 XF,[("bubbling keys woken for every prefix of a mutated path","HashVisitorBehavior::WakeBubblingListeners")])
p("X03","Store mutations wake exactly the tasks that wait for them",
 "When a mutation makes a polled, live stream ready, the waker from that stream's most recent poll is woken (even if streams on the same or other paths were created, polled with other wakers, or dropped before); wakers of streams it does not concern, of dropped streams, and superseded wakers are not woken. Dropping a stream releases its waker and never disturbs other streams.",
 ["histories","schedules"],"every history of stream creation, polling with changing wakers, dropping and mutation",
 "Bookkeeping of shared slots/lists goes wrong only after particular create/drop sequences; tests have none.",
 XF+["async_ui_internal_utils/src/wakers_arena.rs"],[("waker slots in per-entry sublists","StoreWakers::{get_entry,wake_entry,remove_waker_slot}")])
p("X04","signal_stream, for_each and for_each_async follow every change",
 "for_each calls its closure with the current data on the first poll and again on each poll after a change; signal_stream yields the current data likewise (the first time only if fire_immediately) and ends when the data does not exist. for_each_async starts the async function's future likewise, cancels the running one when a new change starts another, drives it until it completes and never polls it after completion; neither for_each variant ever resolves or calls its closure without data.",
 ["histories","schedules"],"every interleaving of polls and mutations (including the data disappearing and reappearing), and of async bodies completing",
 "Tests cover single fixed interleavings.",
 ["x-bow/src/path_ext/for_each.rs","x-bow/src/path_ext/for_each_async.rs","x-bow/src/path_ext/signal_stream.rs"],[("first-poll flag + until_change","ForEach/ForEachAsync/SignalStream::poll")])
p("X05","bind_for_each is a faithful two-way binding",
 "Every value the incoming stream yields is stored (the latest one wins) with other listeners notified, and the on_change function is called once in the beginning and for every poll after a change made by somebody else (unless a value that came in since has replaced it), but not for changes that came in through the binding itself. The future finishes when the incoming stream ends, without losing values yielded before the end.",
 ["histories","schedules"],"every interleaving of incoming values (bursts, together with the end), outside mutations and polls",
 "No existing test.",
 ["x-bow/src/path_ext/bind_for_each.rs"],[("drain incoming then poll until_change","BindForEach::poll")])
p("X06","Paths read and write exactly the data they name",
 "borrow/get through a path sees exactly the named part of the store and set/borrow_mut changes exactly that part (what is written is read back through every equivalent path and all other parts are unchanged), for struct fields, tuples, enum variants, Option, Vec index, HashMap key, Box and nested combinations. When the part does not exist (other variant, index out of range, missing key) access yields None / Err with the given value, changes nothing and notifies nobody.",
 ["inputs","histories"],"every path expression over a nested data type and every history of writes through such paths, including structural changes",
 "Derive tests check a few accessors; round-trip laws across all pairs of paths are not tested.",
 ["x-bow-macros/src/generate.rs","x-bow/src/impls","x-bow/src/path_ext.rs","x-bow/src/store.rs"],[("generated projections","x-bow-macros generate.rs"),("std projections","x-bow/src/impls/stdlib")])
p("W01","The waker arena keeps independent lists of wakers",
 "Through any history of creating lists, adding, updating and removing wakers and removing empty lists, iterating a list yields exactly the wakers currently in that list, each with its last set value, in insertion order; lists never share slots. remove_sublist_if_empty succeeds exactly when the list is empty, freed slots are reused rather than leaked, and a removed waker is released at once.",
 ["histories"],"every operation history, in particular add/remove patterns that recycle slots and grow the arena",
 "The linked-list pointer updates can be wrong only for particular recycle orders; there is no direct test.",
 ["async_ui_internal_utils/src/wakers_arena.rs"],[("doubly linked lists in one Vec with a free list","WakersArena::{add,remove,add_sublist,remove_sublist_if_empty,grow_full_list}")])
p("W02","ReactiveCell notifies every listener of every mutable borrow",
 "A listener future/stream is pending on its first poll, and on a later poll is ready exactly when the cell was mutably borrowed (and released) since the listener's previous poll; each release wakes the last waker of every live polled listener and of no dropped listener. Data access follows RefCell rules, and for_each calls its function with current data in the beginning and after every change it is polled for.",
 ["histories","schedules"],"every history of borrows, listener creation, polling with changing wakers, and drops",
 "The existing tests use one listener and one fixed schedule.",
 ["async_ui_internal_utils/src/reactive_cell"],[("version counter and waker list","ReactiveCellBorrowMut::drop, UntilChangeFuture")])
p("M01","css! registers exactly the written sheet, its classes uniquely suffixed",
 "A use of css! adds exactly one stylesheet to the page, once, whose text is the written text byte for byte (escapes, quotes, backticks, strings, comments and url() contents untouched), except that the name in every class selector - in top-level rules, in rules inside @media, @supports, @container and @layer at any nesting, also within functional pseudo-classes such as :not(.a) - is followed by one suffix specific to that sheet; nothing else is suffixed. Each of these classes is available as a constant of the same name (dashes as underscores) holding the suffixed name; different sheets have different suffixes.",
 ["inputs","programs"],"every stylesheet whose class names are Rust identifiers once dashes are underscores (no native CSS nesting, no escapes inside class names)",
 "No test expands the macro; a tokenizer-driven rewriter is wrong only for particular sequences of tokens and nestings.",
 ["async_ui_web_macros/src/css.rs","async_ui_web_macros/src/lib.rs"],[("collect class positions, splice the postfix, emit inline JS and constants","css.rs find_classes / main macro")])
p("H01","Components create the element they name; text and class shortcuts are exact",
 "Every element component's constructor creates exactly one element of the tag it documents (typed input constructors: an input of that type; CustomElement: the given tag), not on the page before it is rendered. Rendering a str, String or Text displays exactly that text. After any sequence of add_class(es)/del_class(es)/set_class calls, mixed with direct access to the class attribute, the element has exactly the classes that sequence implies, and with_class(es) hand back the element itself.",
 ["inputs","histories"],"every component and input type, every text, every sequence of class operations with overlapping and repeated names",
 "64 components and 22 input types are generated by macros from tables no test reads; the shortcuts' effect depends on the classes already present.",
 ["async_ui_web_html/src/common_components.rs","async_ui_web_html/src/input_types.rs","async_ui_web_html/src/text_node.rs","async_ui_web/src/shortcuts.rs"],[("component_impl!/make_input_types! tables","common_components.rs, input_types.rs"),("ShortcutClassList","shortcuts.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
