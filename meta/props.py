D = "MahjongAI/draw.py"
PX = "MahjongAI/process_xml.py"
DLF = "MahjongAI/utils/dataloader.py"
SLF = "MahjongAI/supervised_learning.py"
AG = "MahjongAI/agents/"
AGF = ["transformer.py", "transformer_conv.py", "transformer_conv_large.py", "transformer_conv_ordered.py"]
PROPS = [
 dict(id="C01", title="Every meld code in a log decodes to the meld the log format describes",
  statement="For every valid meld code of the log format, decoding yields exactly the tiles exposed from hand, the called tile, the colour, number, called position, red-tile flag and source seat that the format assigns to that code.",
  over=["inputs"], forall="all valid 16-bit meld codes of the five kinds, all seats and physical tile copies",
  why="The 17 tests sample one or two constructor-made codes per kind; the decoder must be right for tens of thousands of raw codes with every copy and seat combination.",
  files=[D], mech=[("per-kind bit-field decoding", D+": Naki.pattern_*/get_exposed/from_who")],
  tech="abstract interpretation (affine bit-field domain, trace partitioning)",
  note="Every raw code family is covered symbolically; all decoded components are compared as affine forms with the format. Trusts the interpreter's Python semantics and the format table in checks/codec.py."),
 dict(id="C02", title="Each meld code is of exactly one kind; unsupported codes are refused",
  statement="Every valid meld code is recognised as exactly one of chi, pon, added kan, open kan and closed kan. A code of no supported kind raises a value error instead of being decoded.",
  over=["inputs"], forall="all meld codes, valid or not of a supported kind",
  why="Tests call one predicate on a handful of codes and never an unsupported code; precedence errors between predicates show only on particular bit patterns.",
  files=[D], mech=[("kind predicates and dispatch", D+": Naki.is_*, Naki._clean, Naki.get_exposed")],
  tech="abstract interpretation (exhaustiveness/exclusivity of predicates)",
  note="All raw code families and the 0x20 (north/corrupt) family; each predicate evaluated on every partition."),
 dict(id="C03", title="A meld built from its description decodes back to that description",
  statement="For every legal meld description, the code built from it is of the described kind and decodes to the same tile, called position, seat and red-tile placement, and reading that code again leaves it unchanged.",
  over=["inputs"], forall="all legal meld descriptions (colour, number, position, red placement, seat)",
  why="Tests check a few hand-picked descriptions; red-tile placement interacts with position and number in corners none of them visit.",
  files=[D], mech=[("constructors and decoder agree", D+": Naki.from_*_info / pattern_*")],
  tech="abstract interpretation (writer/reader agreement over affine forms)",
  note="Constructors and decoder are both interpreted on symbolic arguments; equality holds on the whole partition or is reported."),
 dict(id="C04", title="Physically different copies of the same meld share one canonical code",
  statement="Two logged melds that differ only in which physical copies of equal tiles were used have the same canonical code, and it equals the code built from the meld's description, so a logged call always matches the offered call it executes.",
  over=["inputs"], forall="all logged meld codes, all physical copies and called positions",
  why="Tests only normalise codes that are already canonical; the mapping from arbitrary logged codes is never exercised.",
  files=[D], mech=[("normalisation", D+": Naki._clean_*")],
  tech="abstract interpretation (affine equality of normal forms)",
  note="Interpreted normal form of every raw family equals the interpreted constructor's code on every partition."),
 dict(id="C05", title="Every distinct call has its own in-range action index",
  statement="The action index of a call depends only on the call itself (not on physical copies or seat), differs from the index of every other call of the same phase and from the reserved pass, win and riichi slots, and lies inside the action vector.",
  over=["inputs"], forall="all calls of both phases, raw or constructed",
  why="No test computes an action index; collisions appear only between specific red-tile calls.",
  files=[D, "MahjongAI/utils/constants.py"], mech=[("index layout", D+": Naki.get_during_turn_filter_idx/get_post_turn_filter_idx")],
  tech="abstract interpretation (index forms per class, injectivity)",
  note="All semantic classes of the five kinds; index constancy per class, range and pairwise distinctness."),
 dict(id="C06", title="The calls offered on a discard are exactly those the rules allow",
  statement="For every discard and every hand, the chi, pon and open-kan calls offered to a player are exactly those that player can legally make with the tiles in hand, including the separate red-five variants, with the right called position and seat. No call is offered to the discarder, and chi is offered only to the next player.",
  over=["inputs"], forall="all discards, all concealed hands, all relative seats",
  why="No test runs the call generator; a wrong offer shows only for a particular rank, hand and red-five combination.",
  files=["MahjongAI/decision.py", D], mech=[("call generation", "MahjongAI/decision.py: decision_mask")],
  tech="abstract interpretation (offered set vs rule-derived set, both inclusions)",
  note="Hand is a symbolic count per tile kind; suit symbolic; one caller at a time. Legality that depends on riichi or the last tile is decided where the round is processed."),
 dict(id="C07", title="Recorded tiles account for everything seen in the round",
  statement="At every half-turn of every round, the recorded concealed hand of the player to act, the unseen-tile counts (global and from that player's point of view) and the discard record equal what the deal, draws, discards, melds and revealed indicators so far imply, with red fives counted both as fives and in their own slot.",
  over=["histories", "inputs"], forall="all well-formed rounds: any deal, any draws and discards, followed by any event kind with any tile and seat",
  why="No test runs the log reader; a miscount shows only after particular event sequences (called red fives, added kans, indicators).",
  files=[PX], mech=[("tile bookkeeping per event", PX+": process")],
  tech="abstract interpretation of the event loop (fixpoint over the history, oracle per event)",
  note="History of draws/discards is a loop fixpoint; each event kind follows with symbolic tile. Arrays compared at the touched and at a generic index."),
 dict(id="C08", title="The remaining-draw count drops by exactly one per draw",
  statement="Every recorded state shows as remaining draws seventy minus the number of draws made so far in the round, replacement draws included, down to the last draw; no other event changes it.",
  over=["histories"], forall="all event histories of a round",
  why="Double counting shows only over a sequence of events; tests run none.",
  files=[PX, "MahjongAI/utils/constants.py"], mech=[("remaining draws", PX+": process")],
  tech="abstract interpretation of the event loop",
  note="Same harness as C07; includes partitions where the wall runs out."),
 dict(id="C09", title="Riichi, ippatsu, closed-hand flags, scores and sticks follow the events",
  statement="Recorded riichi flags, ippatsu chances, closed-hand flags, scores and riichi sticks change exactly when the rules say: riichi on acceptance (paying 1000 points to the table), ippatsu until the player's next discard or any call, closed hands lost by open calls only.",
  over=["histories"], forall="all event histories of a round, all seats",
  why="Needs sequences (riichi then call, two riichi, kan in riichi) that no test plays.",
  files=[PX], mech=[("flag bookkeeping", PX+": process")],
  tech="abstract interpretation of the event loop",
  note="Scripts of riichi, calls and kans after an arbitrary history of draws and discards."),
 dict(id="C10", title="A round's first states are exactly the deal",
  statement="The states recorded at the start of a round show exactly the dealt hands, first indicator, dealer, scores, counters and remaining rounds of its INIT element, with no riichi, calls or discards.",
  over=["inputs"], forall="all deals (symbolic tile per hand, indicator, scores, counters, round number)",
  why="Tests never read a log; wrong red-five or indicator handling depends on which tile was dealt.",
  files=[PX, "MahjongAI/utils/constants.py"], mech=[("round initialisation", PX+": process")],
  tech="abstract interpretation with symbolic deal",
  note="Every tracked field of the first states compared with the deal."),
 dict(id="C11", title="Rounds of a game do not influence each other",
  statement="The states, tokens and counters of a round depend on that round's own deal and events only; whatever happened in the previous round of the same game leaves no trace in it.",
  over=["histories"], forall="all games with consecutive rounds",
  why="A leak needs two rounds with riichi, calls or kans in the first; no test runs even one.",
  files=[PX], mech=[("per-round reset", PX+": process, _get_rounds")],
  tech="abstract interpretation of two consecutive rounds",
  note="First rounds with riichi, call, kan, indicator, ended by win or draw."),
 dict(id="C12", title="Every visible event yields exactly one correct token",
  statement="The token sequence of a round has exactly one token per discard, call, accepted riichi and revealed indicator, in order and nothing else, each carrying the event's kind, actor, tile or action index and whether the drawn tile was discarded.",
  over=["histories", "inputs"], forall="all event histories and tiles",
  why="No test checks tokens; the fields go wrong only for particular events (drawn tile after a call, red fives).",
  files=[PX, "MahjongAI/utils/constants.py"], mech=[("token writers", PX+": discard2idx/naki2idx/reach2idx/new_dora2idx")],
  tech="abstract interpretation of the event loop and token writers",
  note="Tokens compared as bit-field values with the format."),
 dict(id="C13", title="A decision's token count is exactly the events before it",
  statement="The token count stored with each half-turn equals the number of tokens of the events that happened before that decision, so a model is shown the whole past and nothing of the decision itself or later.",
  over=["histories"], forall="all event histories and half-turn kinds",
  why="An off-by-one leaks the label or hides the discard; tests run no log.",
  files=[PX, "MahjongAI/turn.py"], mech=[("encoding_idx", PX+": process")],
  tech="abstract interpretation of the event loop",
  note="Count compared symbolically with the token list's length at that point."),
 dict(id="C14", title="The half-turns are exactly the round's decisions, in order",
  statement="A round yields one draw half-turn per draw, one discard and one reaction half-turn per discard and one reaction half-turn per added kan, in order and no others, each naming its player, phase, discarded tile and the state that player acted in.",
  over=["histories"], forall="all event histories",
  why="Missing, duplicated or mis-attributed half-turns need specific events (calls, kans, riichi).",
  files=[PX, "MahjongAI/turn.py"], mech=[("half-turn emission", PX+": process")],
  tech="abstract interpretation of the event loop",
  note="Emitted list compared with the events of each script after an arbitrary history."),
 dict(id="C15", title="Riichi, kans and calls are offered exactly when allowed",
  statement="Riichi is offered exactly to a closed, ready hand not yet in riichi that can pay the stick and draws again; closed kans exactly for kinds held four times, added kans exactly for own pons whose fourth tile is in hand, none on the last draw; calls on a discard are offered to every eligible player but the discarder, players in riichi, and nobody on the last discard.",
  over=["histories", "inputs"], forall="all states reached by any round, all hands",
  why="Wrong offers appear only in particular states (after kans, riichi, last tile); tests run none.",
  files=[PX, "MahjongAI/decision.py"], mech=[("offers", PX+": process")],
  tech="abstract interpretation, contracts for solver and call generator",
  note="Shanten value, scores, remaining draws symbolic; call generator itself decided by C06. Ready means the solver's answer; whether a kan in riichi keeps the waits is not claimed."),
 dict(id="C16", title="A decision is marked executed exactly when the log shows it taken",
  statement="Among all recorded decisions exactly those the log shows taken are marked executed: the call that was made and by whom, the declared riichi, the closed or added kan, and each win that ended the round (multiple wins and robbed kans included); declined offers stay unmarked, and every win the evaluation allows is offered.",
  over=["histories"], forall="all rounds and endings",
  why="Needs declined offers, competing callers, double wins; no test plays a round.",
  files=[PX, "MahjongAI/decision.py"], mech=[("executed marks", PX+": process")],
  tech="abstract interpretation, all offers enabled by contract",
  note="Every discard offers the script's call and decoys, every evaluation offers wins."),
 dict(id="C17", title="Unsupported games are refused, supported ones are read",
  statement="Logs of games against computers, without red fives, without open tanyao or with three players, and games somebody left, are refused with InvalidGameException; every other game type is read, with remaining rounds following its length.",
  over=["inputs"], forall="all game-type words, any position of a BYE element",
  why="Tests never read a log header; combinations of rule bits are not sampled.",
  files=[PX, "MahjongAI/gameinfo.py"], mech=[("game filter", PX+": process/_get_rounds; gameinfo.GameInfo")],
  tech="abstract interpretation (symbolic bit word)",
  note="All bit combinations as partitions."),
 dict(id="C18", title="Wins are evaluated with the round's true circumstances",
  statement="Every draw, discard and added kan is evaluated for wins with the right player and tile, the complete hands, the melds, discards and indicators of that moment, riichi, double riichi and ippatsu flags, winds, counters, and the last-tile, replacement-draw, robbed-kan, first-turn bonuses exactly as the rules define them.",
  over=["histories", "inputs"], forall="all rounds, all seats, first turns and the end of the wall included",
  why="Bonus circumstances depend on event sequences that no test plays.",
  files=[PX, "MahjongAI/utils/agari.py"], mech=[("arguments of the win evaluation", PX+": process")],
  tech="abstract interpretation, arguments of the evaluation contract",
  note="Arguments compared at every evaluation call; what the evaluation does with them is C21."),
 dict(id="C19", title="Recorded states never change after they are recorded",
  statement="Nothing that a recorded state shows (tiles, flags, melds, scores, indicators) is modified by the later course of the round, so each state shows the table as it was at its own half-turn.",
  over=["histories"], forall="all event histories after any recorded state",
  why="Aliasing shows only in a later event; tests never keep a state and go on.",
  files=[PX, "MahjongAI/state.py"], mech=[("copying into StateObject", PX+": process")],
  tech="alias/mutation analysis on the abstract heap",
  note="Everything reachable from a StateObject is marked at creation; any in-place change of a marked object is reported with its location."),
 dict(id="C20", title="Recorded melds, indicators and round data follow the events",
  statement="Every recorded state shows exactly the melds each player has called so far (an added kan replacing its pon), the indicators revealed so far in order, the round's dealer, counters and remaining rounds, and belongs to the player to act.",
  over=["histories"], forall="all event histories, all call kinds and seats",
  why="Meld replacement and indicator order need multi-event rounds.",
  files=[PX, "MahjongAI/state.py"], mech=[("meld and indicator bookkeeping", PX+": process")],
  tech="abstract interpretation of the event loop",
  note="Includes players with several melds and kakan of the first or second pon."),
 dict(id="C21", title="A win is offered exactly when the rules engine accepts the player's actual hand",
  statement="For every hand, melds and winning tile, the win evaluation hands the rules engine exactly that player's tiles including the winning one (red fives as red fives), the melds, indicators and that player's own riichi, ippatsu, winds and bonus circumstances, and offers the win exactly when the engine accepts it; the discarder and players who discarded that kind themselves get no ron, and evaluating changes nothing.",
  over=["inputs"], forall="all concealed hands, melds, rivers, seats, winds and circumstances",
  why="No test evaluates a win; a wrong red five, seat or flag shows only for particular hands and tables.",
  files=["MahjongAI/utils/agari.py"], mech=[("win evaluation", "MahjongAI/utils/agari.py: evaluate_ron/evaluate_tsumo/hand_tensor2strs")],
  tech="abstract interpretation (symbolic counts per tile kind, recorded engine arguments)",
  note="The third-party engine is a recorder answering either way; its own scoring is trusted. All 37 counts are symbolic at once; if the source defeats that, one kind at a time is."),
 dict(id="C22", title="Every decision becomes one training sample labelled with the option taken",
  statement="For every batch of games each model's network is trained on exactly one sample per discard, per draw with options, and per player (in seat order after the discarder, up to the first who acted) with options on a discard; the label is the action index of the option marked executed, pass when none is, or the discarded tile.",
  over=["inputs"], forall="all games, rounds, option combinations, seats and executed marks, all four models",
  why="A dropped, duplicated or mislabelled sample changes nothing visible but the trained policy; no test builds a batch.",
  files=[AG+f for f in AGF], mech=[("batch building and labels", AG+f+": prepare_batches") for f in AGF],
  tech="abstract interpretation with tensors of symbolic contents (batch rows compared with the recorded half-turns)",
  note="Several games, rounds and half-turns at once; the labels and targets are observed where they enter the loss."),
 dict(id="C23", title="A sample shows exactly the events before its decision",
  statement="The token sequence of every sample is the round's recorded tokens up to that decision's position followed by empty slots up to length 150: nothing later, nothing missing, nothing from another round.",
  over=["inputs"], forall="all token sequences up to 150 events, all positions, all batches",
  why="Leaking later events makes every training metric better, so nothing fails.",
  files=[AG+f for f in AGF], mech=[("token prefix", AG+f+": _build_*_tensor") for f in AGF],
  tech="abstract interpretation with symbolic tensors",
  note="Token contents, length and position are symbolic; every row is read at an arbitrary position before and after the decision."),
 dict(id="C24", title="State features encode the recorded state of the deciding player",
  statement="The features of every sample are the recorded state in the model's layout (hand, unseen tiles, the four rivers, the per-seat and scalar features, one slot each), of the player who decides, in the sample's own row; the ordered model gets the rivers rotated to, and the seat of, the deciding player.",
  over=["inputs"], forall="all states, all half-turn kinds, all seats, all four models",
  why="Swapped planes, wrong seats or row mix-ups still train without any error.",
  files=[AG+f for f in AGF], mech=[("state features", AG+f+": _convert_state_obj_to_tensors") for f in AGF],
  tech="abstract interpretation with symbolic tensors",
  note="Known finding: reactions to a discard carry the discarder's state in all four models; their features are still compared with that state."),
 dict(id="C25", title="The action mask allows exactly the legal actions",
  statement="In every sample the network may choose exactly pass and the recorded options (for discards exactly the tile slots held in hand, red fives apart); every other action's logit is masked, no offered one is, and the label is never masked.",
  over=["inputs"], forall="all hands, option combinations, melds and seats, all four models",
  why="A wrong mask index or threshold shows only for particular hands and melds.",
  files=[AG+f for f in AGF], mech=[("action masks", AG+f+": _build_*_tensor, Decoder.forward") for f in AGF],
  tech="abstract interpretation with symbolic tensors, mask read at the loss",
  note="The mask is decided from the logits that enter the loss, at an arbitrary action index."),
 dict(id="C26", title="Forward passes work for every batch size and keep samples apart",
  statement="For any number of samples of each kind (none, one, thousands) the forward pass succeeds and yields exactly one (logits, loss) pair per non-empty kind, the loss being the mean cross entropy of that kind's own logits and labels; samples do not influence each other, sub-sampling keeps rows together without repetition and within the limit, every prepared tensor is used, and every layer used is a trained part of the model.",
  over=["inputs"], forall="all batch sizes (symbolic), with and without sub-sampling, all four models, 1 to 3 layers",
  why="Shape accidents appear for single samples or empty kinds only; unregistered layers and mixed rows never fail.",
  files=[AG+f for f in AGF], mech=[("forward", AG+f+": forward, Encoder, Decoder, StateNet") for f in AGF],
  tech="shape and dependency analysis by abstract interpretation with symbolic batch sizes",
  note="Each tensor element carries the row it stems from; batch mixing by any reduction, view or softmax over the batch axis is reported. Numerical behaviour is not claimed."),
 dict(id="C27", title="Different events are embedded differently, empty slots as zero",
  statement="In every model's encoder any two recorded events that differ in kind, player, tile, call or tsumogiri get different embeddings and every recorded event can be embedded, positions are told apart, empty slots are exactly zero; the ordered model sees every event from the deciding player's seat.",
  over=["inputs"], forall="all tokens the log encoder emits, all positions and deciding seats, all four models",
  why="A clamp, shift or condition that conflates two events costs only accuracy; no test embeds a token.",
  files=[AG+f for f in AGF], mech=[("token embedding", AG+f+": Encoder.forward") for f in AGF],
  tech="abstract interpretation: embedding as a symbolic sum of table rows, injectivity of the row indices",
  note="Decided on the sum of table rows; that the rows of a table differ is assumed."),
 dict(id="C28", title="Every usable game is delivered exactly once per pass, unusable ones skipped",
  statement="Iterating the data loader delivers every file that can be read exactly once per pass, each game's half-turns with its own tokens, in non-empty batches of at most the batch size; a file that is refused or fails in any way is skipped and never ends the pass, a pass ends after the last file, and reset starts a complete new pass.",
  over=["inputs", "histories"], forall="all mixes of usable and failing files, batch sizes, passes and resets in mid-pass",
  why="Loss of the last partial batch, of games after a bad file, or after a reset needs particular mixes; tests have no data.",
  files=[DLF], mech=[("batching", DLF+": DataLoader")],
  tech="abstract interpretation with the log reader as a contract (returns or raises), typestate of the pass",
  note="Up to 3 files (4 in the thorough tier), each usable or failing in one of three ways, batch sizes 1, 2, 3 and 5, two passes."),
 dict(id="C29", title="A training iteration is one complete pass over the next year",
  statement="Each iteration trains on every usable game of exactly one year's directory exactly once, the years taken in turn over the eight training years, and publishes one checkpoint; unusable games, batches without samples, or missing validation data never end the run.",
  over=["histories", "inputs"], forall="any number of iterations, any mix of usable and unusable games, batches without samples",
  why="A missed reset or a crash on an empty batch shows only after hours of training.",
  files=[SLF, DLF], mech=[("training loop", SLF+": train")],
  tech="abstract interpretation of train() over file and sample contracts, event trace against the pass protocol",
  note="Directories of 1 and 6 files, 1 to 9 iterations, 0/1/3 losses per batch, all failures placed explicitly; all registered models."),
 dict(id="C30", title="Every loss makes exactly one clean optimiser step",
  statement="For every loss a training batch yields, gradients are cleared, that loss is back-propagated, the optimiser steps and the learning-rate schedule advances, once each and in that order before the next loss or checkpoint; the optimiser owns exactly the parameters of the model that is trained.",
  over=["histories"], forall="all sequences of batches and losses, all registered models",
  why="Accumulated gradients, skipped steps or unowned parameters only degrade training silently.",
  files=[SLF], mech=[("optimiser protocol", SLF+": train")],
  tech="typestate analysis on the event trace of the abstract interpretation",
  note="Losses are computed lazily as in the source; parameters compared by identity over the module tree."),
 dict(id="C31", title="Validation never trains and never disturbs training",
  statement="Validation games run only without gradients in evaluation mode and are never back-propagated; training games run only with gradients in training mode, also after a validation; every validation restarts on the same validation games, consumes no training games and reports the average of its losses.",
  over=["histories"], forall="all interleavings of training batches and validations, all registered models",
  why="Leaked modes or gradients show only after a validation inside a run.",
  files=[SLF], mech=[("validation", SLF+": estimate_loss/train")],
  tech="typestate analysis (mode and gradient state) on the event trace of the abstract interpretation",
  note="Which games are validation games is decided by the directory they were read from."),
 dict(id="C32", title="Checkpoints are complete, own, and the newest one is resumed",
  statement="After every iteration the trained weights are published under a name of that model and iteration only once completely written; a later run resumes exactly from that model's newest published checkpoint and numbers its iterations on, ignoring unfinished files and other models' checkpoints, and never replaces or removes existing ones.",
  over=["crash_points", "histories"], forall="all crash points between two file operations, all sets of existing checkpoints (numbers with one and two digits, all model names)",
  why="Needs a crash while saving, ten or more iterations, or models whose names are prefixes of each other.",
  files=[SLF], mech=[("checkpoints", SLF+": train/find_latest_checkpoint")],
  tech="effect analysis of file operations in the abstract interpretation, names fed back to the resuming run",
  note="The names are taken from the source's own saves; atomicity of os.replace assumed; torch.save may leave any prefix."),
 dict(id="C33", title="Every advertised model trains, and the one asked for",
  statement="The command line and the training function accept the same model names, every one of them builds a model that runs, each name its own architecture, and any other name is refused before training.",
  over=["inputs"], forall="all model names in the source and any other",
  why="Nine configurations in two hand-written lists; tests start none.",
  files=[SLF], mech=[("model registry", SLF+": train/__main__")],
  tech="abstract interpretation of the command line and of train() for every name constant",
  note="Names are the string constants of the module; forward passes of the architectures are C26."),
 dict(id="C35", title="Reading a game leaves no trace: results never depend on earlier games",
  statement="Decoding melds, generating calls, reading rounds, evaluating wins and building samples never modify module tables and constants, class attributes, default arguments or globals, so a game yields the same half-turns, tokens and samples whatever was read before it in the same process.",
  over=["histories", "inputs"], forall="all games and rounds read in any order in one process, failed and refused ones included",
  why="A table modified by one game (a missing copy, a shared default) corrupts only later games; the tests read none.",
  files=[PX, D, "MahjongAI/decision.py", "MahjongAI/utils/agari.py", "MahjongAI/utils/constants.py"] + [AG+f for f in AGF],
  mech=[("module tables copied before use", PX+": process (REMAINING_TILES)"), ("stateless helpers", "MahjongAI/utils/agari.py, decision.py, draw.py")],
  tech="mutation/effect analysis on the abstract heap (shared objects marked after import)",
  note="Marks everything reachable from modules, classes, functions and defaults; runs codec, call generation, round scripts, win evaluation and batch building. Third-party objects are trusted to be stateless."),
]
PROPS.append(dict(id="C34", title="The shanten solver returns the true distance to a ready hand",
  statement="For every hand of 1 to 14 tiles and any number of called melds the solver's value is the minimal number of tile exchanges to a ready hand, over the standard form, seven pairs and thirteen orphans.",
  over=["inputs"], forall="all hands of 1 to 14 tiles",
  why="Hundreds of millions of hands; errors show on rare shapes.",
  files=["MahjongAI/utils/shanten.py"], mech=[("shanten solver", "MahjongAI/utils/shanten.py: ShantenSolver")]))
PROPS.append(dict(id="C36", title="Every linked game is downloaded once and stored exactly when received",
  statement="For every index page, each linked game is requested once from the log server and stored, as received, under its own id exactly when the server answered with success; other links and files are ignored, nothing else is requested or written, and a failed download does not end the run.",
  over=["inputs", "fault_sequences"], forall="all index pages and all mixes of successful and failed answers",
  why="Needs a server that fails for some games; the tests never run the script.",
  files=["MahjongAI/data/scrape_data.py"], mech=[("downloader", "MahjongAI/data/scrape_data.py")],
  tech="abstract interpretation with file and server contracts, effect analysis against the links",
  note="Four families of index pages (none, one, several links per page and line, foreign links, other files), every mix of 200/404/503 for four requests; regular expressions are applied to the known page texts; connection exceptions are not modelled."))
NA = {"C34": "minimality quantifies over all decompositions of all hands: it needs the search to be run or enumerated, no static argument in reach bounds it. (Reading the solver found three defects, which are repaired; hands with four copies of a kind can still differ by one.)"}
