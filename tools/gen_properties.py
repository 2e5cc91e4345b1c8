#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: anchors["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: anchors["observe_at"]=observe
    anchors["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":anchors})

MEMO="src/datatypes/wrapper/memoizer.rs"; ASY="src/datatypes/async_monad.rs"; IO="src/datatypes/io.rs"
p("C01","Memoizer: one computation per key, one answer for everybody",
"Between two clears of a memoizer, at most one supplied computation per key runs to completion, no matter how many threads ask for the key at the same time and how they are scheduled. Every call for that key returns exactly the value that this one computation produced from the key.",
["schedules","histories"],"for every number of threads, keys and calls, every interleaving of their steps inside and between calls, and every duration of the supplied computations",
"the tests start a few threads once and look at the final value; the racing window between the cached-value check and the insertion is a handful of instructions and is never steered",
[MEMO],[("double-checked read lock / write lock around compute and insert","Memoizer::get_or_compute")],
[("cache","computed values by key",MEMO)],["Memoizer::get_or_compute return values","number of completed computations"])
p("C02","Memoizer: concurrent lookups and clears are linearizable",
"Every concurrent history of lookups and clears on one memoizer is equivalent to a sequential history that respects real time, in which a lookup returns the cached value if there is one and otherwise computes and caches it, and a clear empties the memoizer. In particular a lookup that starts after a clear has returned never gets a value whose computation had finished before that clear started, and entries of one key never influence another key.",
["schedules","histories"],"for every concurrent history of lookups and clears and every schedule",
"clear is tested sequentially only; no test overlaps clear with lookups or with running computations",
[MEMO],[("one lock orders lookups, insertions and clears","Memoizer::get_or_compute, Memoizer::clear")],None,["call/return history"])
p("C03","Memoizer: a panicking computation is isolated, and calls always finish",
"When a supplied computation panics, the panic reaches exactly the caller that supplied it, nothing is cached for its key, and every other concurrent or later call on any key, and clear, completes normally, as if the failed call had never been made. As long as the supplied computations finish, every call on a memoizer returns under every schedule.",
["schedules","fault_sequences"],"for every choice of which computations panic, every interleaving with other callers and clears",
"no test lets a computation panic, and a deadlock or a poisoned lock needs a panic at a particular point followed by other calls",
[MEMO],[("lock poisoning is tolerated","Memoizer::get_or_compute, Memoizer::clear")])
p("C04","AsyncM: effects are lazy, run once per evaluation, in program order",
"Building an async computation from pure, new, fmap, bind (borrowing or owning forms) and from_result_or_default performs no effect; each evaluation yields the value and performs the effects that reading the composition sequentially prescribes, each effect exactly once per evaluation and in that order. This holds however the polls are scheduled, delayed, repeated spuriously or moved between threads, and however many evaluations of the same value or its clones run one after another or overlap.",
["schedules","programs","histories"],"for every composition, every poll/wake schedule and every set of overlapping evaluations",
"the tests await small fixed chains once on a runtime whose futures are nearly always ready at first poll",
[ASY],[("an evaluation re-creates its futures from the stored factory","AsyncM::new, fmap, bind, fmap_owned, bind_owned, try_get")],None,["effect log per evaluation","evaluation result"])
p("C05","AsyncM: apply, zip and zip_with run both operands concurrently, once",
"Evaluating apply, apply_owned, zip or zip_with on effectful operands runs each operand exactly once and both concurrently: once evaluation has started neither operand's progress depends on the other having progressed, so the evaluation takes the longer of the two durations, not their sum. The combining function then runs exactly once, after both have finished, on the two results in their own positions.",
["schedules","programs"],"for every pair of operand behaviours (durations, numbers of suspensions, mutual dependencies) and every wake order",
"tests use immediate or equal-length operands; a sequential evaluation or a lost wake-up gives the same value there",
[ASY],[("both operand futures are polled by one join","AsyncM::apply, apply_owned, zip_with, zip")])
p("C06","AsyncM: dropping an evaluation half way stops it cleanly",
"When an evaluation is dropped at any suspension point, no further effect of it is performed, everything it had taken or created is released exactly once, and other evaluations of the same computation, concurrent or later, still perform all their effects and yield the same value as if the dropped one had never existed.",
["schedules","crash_points","programs"],"for every composition, every suspension point as the point of cancellation and every set of other evaluations of the same value",
"the tests never drop an evaluation between two polls",
[ASY],[("all state of an evaluation lives in its own future","AsyncM combinators")])
p("C07","AsyncM: recover_with and from_result_or_default contain failures",
"An evaluation protected by recover_with yields the supplied default exactly when the protected computation panics, whether while its future is being created, at its first or any later poll, or in a function given to its combinators, and otherwise yields that computation's own value; from_result_or_default yields the default exactly when its function's future resolves to an error. An unprotected panic reaches the evaluator of that evaluation and no one else, and in every case later evaluations of the same value start afresh.",
["fault_sequences","schedules","programs"],"for every position at which a step fails or panics and every poll schedule",
"tests panic at one place only, at the first poll",
[ASY],[("panics of the whole protected evaluation are caught","AsyncM::recover_with"),("error branch","AsyncM::from_result_or_default")])
p("C08","IO: every run performs the composed effects exactly once, in order",
"Running an IO built from new, pure, fmap, bind, combine, sequence, when and apply performs, on the calling thread, exactly the effects its structure prescribes, each once per run and in left-to-right data-flow order (the two effects joined by apply each run once, before the application), and returns the value this sequential reading gives; effects of an effectful IO are performed by run only, never by building, cloning or dropping it. Runs of one shared IO from several threads do not influence each other.",
["programs","schedules","histories"],"for every composition and every interleaving of runs of shared IOs on several threads",
"tests run small fixed compositions once, on one thread",
[IO],[("composition wraps the effect closures","IO::fmap, bind, apply, combine, sequence, when")])
p("C09","IO: failures are captured where asked for, and only there",
"When an effect panics at any point of a run, run itself propagates the panic, every try_get form returns an error carrying the panic's message (and the given context) instead, recover and recover_with continue with the recovery only in that case and otherwise leave the value alone, and sequence_composable runs every IO once and returns either all values in order or all errors in order. A captured failure leaves nothing behind: the same IO can be run again, on any thread, with the outcome that run deserves.",
["fault_sequences","programs","schedules"],"for every set of effects that panic, on every run, and every interleaving of such runs",
"tests use one panicking effect in a fixed position and never run the IO again or concurrently",
[IO],[("unwinding is caught around one run","IO::try_get*, recover, recover_with, sequence_composable, into_error_pipeline")])
p("C10","IO: an IO made from a future runs it once and shares its result",
"The future given to IO::new_async is not started before the first run, is then driven to completion exactly once however many runs, clones and threads there are, and every run returns its value, waiting for it if need be. This holds for runs on plain threads, on threads blocked by an async runtime and inside tasks of a runtime alike, under every schedule; if the future panics, every run reports a panic instead of hanging or inventing a value.",
["schedules","configurations","fault_sequences"],"for every number of concurrent runners, kind of calling thread, behaviour of the future (immediate, suspending, slow, panicking) and interleaving",
"tests run it from one task of one runtime, once",
[IO],[("the future is taken once and its result cached","IO::new_async")],[("result_cache","the future's value once it is known",IO)])
p("C11","IO: delays never end early and always end",
"A run of IO::delay_sync, and the first run of IO::delay, returns its value no earlier than the requested duration after the run started, even when sleeps are interrupted or threads stall, and a later run of the same IO::delay returns the same value. Once the duration has passed the run completes, and building a delayed IO does not wait.",
["schedules","configurations","fault_sequences"],"for every duration, every scheduling delay, interrupted sleep and set of concurrent delays",
"tests measure a few milliseconds of real time once",
[IO],[("sleep inside the effect","IO::delay, IO::delay_sync")])
p("C12","IO: run_async runs the effects once without blocking its executor",
"Awaiting run_async performs the effects of the IO exactly once and yields its value, and while they run the executor's threads stay free, so other tasks of the same runtime, even a single-threaded one, keep making progress and concurrent run_async calls overlap. A panic in the effects reaches the awaiting task only, and dropping the await neither tears an effect in half nor affects other runs.",
["schedules","configurations","fault_sequences"],"for every IO, runtime flavour, number of concurrent awaits, duration of the effects and point of cancellation",
"tests await it with nothing else on the runtime",
[IO],[("effects run on the blocking pool","IO::run_async")])
p("C13","Validated: async maps and chains keep order, run once, and overlap",
"fmap_valid_async and and_then_async call their function exactly once on the value of a valid input and yield what its future resolves to, and never call it for an invalid one, whose errors come back unchanged in order; fmap_invalid_async calls its function exactly once per error, lets all the resulting futures progress concurrently, and yields the mapped errors in the original order whatever order they finish in, and leaves a valid input unchanged.",
["schedules","inputs"],"for every number of errors, completion order, poll schedule and cancellation",
"tests use futures that are ready at once, where order and concurrency cannot show",
["src/datatypes/validated/core.rs"],[("joint polling of the error futures","Validated::fmap_invalid_async"),("single await","Validated::fmap_valid_async, and_then_async")])
p("C14","PersistentVector: an update never changes an existing version",
"Every operation on a persistent vector leaves the vector it is applied to, and every other version derived earlier or shared with other threads, exactly as it was: same length, same elements in the same order, before, during and after the operation. This holds when threads derive new versions from shared ones at the same time, when versions are dropped in any order, and when cloning an element or a supplied function panics in the middle of the operation.",
["schedules","histories","fault_sequences"],"for every history of operations over shared versions, every interleaving, and every point at which an element clone or callback panics",
"tests check one or two older versions after one or two operations on one thread",
["src/pvec/core.rs","src/pvec/tree.rs","src/pvec/node.rs"],[("path copying over reference-counted nodes","RRBTree and RRBNode operations")])
p("C15","PersistentVector: behaves as a sequence under every operation history",
"After any history of pushes, pops, updates, inserts, removals, concatenations, splits, takes, skips, mapping, filtering, chunking and collecting, on any thread, a persistent vector reads back through indexing, iteration, first, last, conversion and folding as the sequence those operations define. Two vectors are equal, and order and hash alike, exactly as their element sequences do, however they were built.",
["histories","inputs"],"for every operation history, including sizes that cross buffer, leaf and branch capacities repeatedly, and every sharing of intermediate versions between threads",
"tests use short histories and one construction per size; the defects repaired here needed two or three operations in combination",
["src/pvec/core.rs","src/pvec/tree.rs","src/pvec/node.rs","src/pvec/iter.rs","src/pvec/traits.rs"],[("inline storage, head and tail buffers and relaxed radix tree","RRBTree")],[("head, root, tail","the three parts of a large vector, in order","src/pvec/tree.rs")])
p("C16","Every value put in is dropped exactly once",
"Every value, closure and future handed to, cloned inside or produced by persistent vectors, memoizers and the IO, AsyncM, State, Reader and Cont families (with their transformers) is dropped exactly once, by the time everything that was built from it is gone: never twice, never used after its drop, and never leaked. This holds under every interleaving of sharing threads, after panics in user code and after cancelled evaluations.",
["schedules","histories","fault_sequences","crash_points"],"for every history, interleaving, panic point and cancellation point",
"tests use integers and leak-indifferent values; a double drop or a leak is invisible to them",
["src/pvec/core.rs","src/pvec/tree.rs",MEMO,IO,ASY,"src/transformers/reader_t.rs","src/transformers/state_t.rs","src/transformers/cont_t.rs"],[("reference counting and ownership, one bitwise copy in ReaderT::bind","ReaderT::bind")])
p("C17","State, StateT: runs thread the state in order and are independent",
"Running a stateful computation built from new, pure, get, put, modify, fmap, bind and apply gives the value and final state obtained by performing its steps in order, each exactly once and each on the state its predecessor left. A chain of StateT steps (new, get, put, modify, fmap_with, bind_with) over a failing base monad likewise stops at the first failure, performs no later step and reports that failure; StateT apply and combine_with run each operand exactly once on the state the run started with. Running the same computation, or clones of it, repeatedly or from several threads at once gives every run its own state, as if it were the only one, also after other runs panicked.",
["programs","schedules","fault_sequences"],"for every composition and initial state, every interleaving of runs, every step that fails or panics",
"tests run fixed two- or three-step computations once on one thread",
["src/datatypes/state.rs","src/transformers/state_t.rs"],[("state is passed by value through closures","State::bind, StateT::bind_with, fmap_with, combine_with, apply")])
p("C18","Reader, ReaderT: every step sees the run's own environment",
"Running a reader computation built from new, ask, asks, local, fmap, bind, combine and the transformer forms gives every step the environment of that run, as modified by exactly the local calls that enclose it, performs each step exactly once per run in order, and gives the value this prescribes. Over a failing base monad the first failure ends a bind chain and is its result, while combine and the applicative forms run both operands in order and report the first failure. Runs of one shared reader with different environments, from several threads or after runs that panicked, do not influence each other.",
["programs","schedules","fault_sequences"],"for every composition and environment, every interleaving of runs, every step that fails or panics",
"tests run fixed readers over integers once on one thread",
["src/datatypes/reader.rs","src/transformers/reader_t.rs"],[("environment is cloned into each step","Reader::bind, combine, local; ReaderT::bind, combine, local")])
p("C19","Cont, ContT: continuations are entered exactly as prescribed",
"Running a continuation computation built from new, pure, fmap, bind, apply and call_cc calls the final continuation exactly as often as, and with the values that, the composed functions prescribe: once for ordinary steps, not at all after an early exit that bypasses it, and once per invocation when a step calls its continuation repeatedly; a call_cc escape abandons exactly the rest of its own block. The computation can be run any number of times, with different final continuations and from several threads, every run independent of the others.",
["programs","schedules","fault_sequences"],"for every composition, every interleaving of runs, every continuation that panics",
"tests run single compositions once on one thread",
["src/datatypes/cont.rs","src/transformers/cont_t.rs"],[("continuation passing","ContT::bind, fmap, apply, call_cc")])
p("C20","Traversals call user code in order and stop or go on exactly as promised",
"The fail-fast traversals (sequence, traverse, sequence_with_error, traversal of options and results) call the supplied function once per element in order up to and including the first failure and return that failure, or all results in order; the accumulating ones (traverse_validated, Validated collection and sequencing) visit every element once and return all errors in order, or all results. Lazily built error contexts and the steps of an error pipeline run exactly once when the pipeline is on the side they belong to and never otherwise, and a panic in user code passes through unchanged leaving the inputs intact; the collection helpers (folds, filter_map, zip_with, fan_out, pipelines, Choice mapping, filtering and binding) likewise call their function once per element in order, and the short-circuiting folds not at all after the first failure.",
["fault_sequences","inputs"],"for every set of positions at which the supplied function fails or panics",
"tests place one failure in a fixed position and do not count calls",
["src/utils/error_utils.rs","src/utils/hkt_utils.rs","src/error/context.rs","src/error/types.rs","src/traits/traversable.rs","src/datatypes/validated/core.rs","src/traits/foldable.rs","src/utils/categorical_utils.rs","src/utils/transform_utils.rs","src/datatypes/choice.rs"],[("early return / error accumulation","traverse_result, traverse_validated, ErrorPipeline")])

p("C21","Composed functions, predicates, thunks and optics run parts as composed",
"A function built from function morphisms (composition in every form, sequencing, conditional steps, first, second, split, both, fan-out), each time it is called, calls the parts that its composition prescribes, once each, in that order and with the values it prescribes, and returns what that prescribes. Combined predicates evaluate left to right and skip an operand whose outcome cannot matter; a deferred thunk runs its function once per evaluation and not before, and its map, and-then and filter forms run the given function once on its value; modifying through a lens, prism or isomorphism applies the given function once to the focus (not at all when there is no focus), and nothing outside the focus changes. A part that panics lets its panic through unchanged, after exactly the calls before it, and leaves the composed value, its clones and the inputs usable and everything released once, and all this holds however often a composed value is called, cloned, shared between compositions and threads or outlives the pieces it was made from.",
["fault_sequences","inputs","schedules"],"for every composition of the combinators, every set of calls in which a part panics, and every sharing of composed values between compositions and threads",
"tests compose two or three total functions, do not count calls, share nothing and let no part panic",
["src/category/function_category.rs","src/traits/arrow.rs","src/traits/category.rs","src/datatypes/wrapper/predicate.rs","src/datatypes/wrapper/thunk.rs","src/traits/evaluate.rs","src/datatypes/lens.rs","src/datatypes/prism.rs","src/datatypes/iso_lens.rs","src/datatypes/iso_prism.rs","src/traits/iso.rs"],[("boxed closures calling shared parts","FunctionCategory, Predicate, Thunk"),("getter/setter pairs","Lens, Prism, IsoLens, IsoPrism")])

p("C22","Value carriers call functions exactly when prescribed and survive panics",
"Mapping, applying, lifting, binding, joining, sequencing, folding, choosing between, combining, recovering and error-mapping values of Option, Maybe, Result, Either, Validated, Id, Writer, Choice, Vec and the First, Last, Max, Min, Sum and Product wrappers, and combining maps, sets and tuples part by part, call the given functions exactly as often, with the arguments and in the order that the operation prescribes for the values the operands hold (never for an absent value or the other side), and give exactly the values, alternatives, log entries and errors it prescribes, in order: the first error for Result and Either, every error for Validated, concatenated logs for Writer. The borrowing and the consuming form of an operation agree, and every other carrier, also one that shares parts with an operand or is used by another thread, is unchanged. A panic in a function or in the cloning of a value reaches the caller unchanged after exactly the calls before it, leaves every other carrier usable, and every value is released exactly once.",
["fault_sequences","histories","inputs"],"for every history of operations over a pool of carriers, and every call or clone in them that panics or function that fails",
"tests apply one operation to small literals, compare results only, and let no function and no clone panic",
["src/traits/functor.rs","src/traits/applicative.rs","src/traits/monad.rs","src/traits/monad_error.rs","src/traits/monad_plus.rs","src/traits/alternative.rs","src/traits/foldable.rs","src/traits/semigroup.rs","src/traits/bifunctor.rs","src/datatypes/maybe.rs","src/datatypes/either.rs","src/datatypes/id.rs","src/datatypes/writer.rs","src/datatypes/choice.rs","src/datatypes/validated/traits.rs","src/datatypes/validated/core.rs","src/datatypes/wrapper"],[("trait implementations in borrowing and consuming form","src/traits and src/datatypes"),("shared or inline value buffers","Choice, Validated")])

# --- properties that hold for pure functions of their inputs: stated, not claimed
p("C30","Functor, applicative and monad laws hold for the value types",
"For Maybe, Either, Id, Validated, Choice, Writer, Option, Result, Vec and the wrappers, mapping with the identity and with a composition, pure, apply and bind satisfy the functor, applicative and monad laws each type claims.",
["inputs"],"for all values and all total functions","tests sample a few values and functions",["src/traits/functor.rs","src/traits/applicative.rs","src/traits/monad.rs","src/datatypes"],[("trait implementations","src/datatypes")])
p("C31","Semigroup and monoid laws hold",
"combine is associative and empty is its identity for every type that implements them.",["inputs"],"for all values","tests sample values",["src/traits/semigroup.rs","src/traits/monoid.rs","src/datatypes/wrapper"],[("trait implementations","src/datatypes/wrapper")])
p("C32","Lens, prism and iso laws hold",
"Getting after setting, setting after getting, setting twice, preview/review and both iso round trips give what the optics laws prescribe, also through composition.",["inputs"],"for all structures and lawful components","tests sample structures",["src/datatypes/lens.rs","src/datatypes/prism.rs","src/datatypes/iso_lens.rs","src/datatypes/iso_prism.rs","src/traits/iso.rs"],[("getter/setter pairs","src/datatypes/lens.rs")])
p("C33","Validated accumulates every error in order",
"Combining validated values applicatively keeps every error of every invalid operand exactly once, in operand order, and is valid only when all operands are.",["inputs"],"for all operands","tests sample operands",["src/datatypes/validated/core.rs","src/datatypes/validated/traits.rs"],[("error buffer","src/datatypes/validated/core.rs")])
p("C34","Choice keeps its primary value and alternatives in order",
"Construction, mapping, filtering, swapping and conversion of a Choice keep the primary value and the order and number of alternatives documented for each operation.",["inputs"],"for all choices","tests sample choices",["src/datatypes/choice.rs"],[("shared value sequence","src/datatypes/choice.rs")])
p("C35","Conversions between error carriers lose nothing",
"Converting between Result, Either, Validated, Option and Maybe keeps the success value or the error(s) that both sides can represent.",["inputs"],"for all values","tests sample values",["src/error/convert.rs","src/error/core.rs"],[("conversion functions","src/error/convert.rs")])
p("C36","Serialisation round trips",
"Deserialising what was serialised gives an equal value for every serialisable type.",["inputs"],"for all values","tests sample values",["src/datatypes"],[("serde derives behind the serde feature","src/datatypes")])
p("C37","Composable errors keep context newest first",
"Contexts, code and core error of a composable error are reported in the documented order by context(), iteration, chain formatting and mapping.",["inputs"],"for all context sequences","tests sample short sequences",["src/error/types.rs"],[("context stack","src/error/types.rs")])
p("C38","Function category and arrow laws hold",
"Identity, composition, first, second, split and fanout of functions satisfy the category and arrow laws.",["inputs"],"for all functions and inputs","tests sample functions",["src/category/function_category.rs","src/traits/arrow.rs","src/traits/category.rs"],[("boxed composition","src/category/function_category.rs")])
p("C39","Writer accumulates its log in order",
"Mapping and binding writers concatenates logs in program order, losing and duplicating nothing.",["inputs"],"for all compositions","tests sample compositions",["src/datatypes/writer.rs"],[("log combination","src/datatypes/writer.rs")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
