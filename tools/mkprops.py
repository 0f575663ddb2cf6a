import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CL="lib/src/tsetlini_algo_classic.hpp"; BW="lib/src/tsetlini_algo_bitwise.hpp"; CO="lib/src/tsetlini_algo_common.hpp"; TS="lib/src/tsetlini.cpp"
TA="lib/src/ta_state.cpp"; ST="lib/src/tsetlini_state.cpp"; PA="lib/src/tsetlini_params.cpp"; PC="lib/src/params_companion.hpp"; JS="lib/src/tsetlini_state_json.cpp"; MT="lib/include/mt.hpp"; CT="lib/src/coin_tosser_exact.hpp"; CA="lib/src/estimator_state_cache.cpp"; ES="lib/src/estimator_state.cpp"

p("C01","Classifier decision scores equal the weighted clause votes",
 "For a fitted classifier, byte-vector or bit-vector flavour, the decision score of every label equals the sum over that label's clauses of +weight (even position) or -weight (odd position) of each clause that matches the sample, limited to [-threshold, +threshold]. A clause matches exactly when it includes at least one literal and every literal it includes is true in the sample; an automaton includes its literal exactly when its state is non-negative. The scores for a batch equal the scores of its samples taken one at a time.",
 ["inputs","configurations"],"every assignment of automaton states, clause weights, sample bits, threshold and tile size, for sample widths around and across every tile boundary",
 "tests compare a few hand-written or randomly filled clause matrices against helper functions, at a few widths; they never tie the public scores to the model for arbitrary states, weights and widths",
 [CL,BW,CO,TS],[("clause evaluation with pruning of empty clauses",CL+", "+BW),("label vote summation and clamping",CL+" sum_up_label_votes"),("decision function entry points",TS)],
 [("automaton states","per clause and literal, include when >= 0","lib/src/ta_state.hpp"),("clause weights","integer votes, stored less one","lib/src/ta_state.hpp")],["decision_function of ClassifierClassic and ClassifierBitwise"])
p("C02","Predicted label is the first best-scoring label; accuracy counts matches",
 "A fitted classifier predicts, for every sample, the lowest-numbered label among those with the highest decision score. Predicting a batch gives the same labels, in order, as predicting its samples one at a time. The reported accuracy of a labelled batch is one minus the fraction of samples whose predicted label differs from the given label.",
 ["inputs","configurations"],"every model (states, weights, threshold), every batch and every given labels within the bounds, ties included",
 "tests predict after training on one data set and check an accuracy threshold; ties, odd weights and batch-versus-single agreement are not quantified",
 [TS,CL,BW],[("arg-max over label sums",TS+" predict_classifier_impl, evaluate_classifier_impl")],None,["predict, evaluate"])
p("C03","Regressor prediction equals the clamped sum of matching clause weights",
 "For a fitted regressor, byte-vector or bit-vector flavour, the prediction for a sample is the sum of the weights of all clauses that match it (each counting 1 when the model is unweighted), limited to [0, threshold]. Clauses that include no literal never contribute. Predicting a batch gives the same responses, in order, as predicting its samples one at a time.",
 ["inputs","configurations"],"every assignment of automaton states, weights, sample bits, threshold and tile size within the bounds",
 "tests check a trained regressor's error on one data set and a vote-summing helper on random vectors",
 [CL,BW,TS],[("regressor vote summation",CL+" sum_up_regressor_votes"),("regressor predict",TS+" predict_regressor_impl")],None,["predict of RegressorClassic and RegressorBitwise"])
p("C04","Job count, tile size and storage width never change results or race",
 "With the same model or the same seed and data, the number of parallel jobs, the clause tile size and the automaton storage width do not influence any prediction, score or trained model. Work shared between parallel jobs is partitioned so that no two jobs write the same memory and no job reads what another one writes.",
 ["schedules","configurations","inputs"],"every interleaving of 1..4 jobs, every tile size and storage width, every model and sample within the bounds",
 "tests run with whatever the scheduler does and mostly compare nothing across job counts; a race or a wrong partition shows only under particular interleavings and sizes",
 [CL,BW,CO,PC],[("parallel clause evaluation",CL+" and "+BW+" omp parallel for"),("tile size dispatch",CO)],None,["predict, decision_function, partial_fit"])
p("C05","Automaton states stay within the configured range in any storage width",
 "After any accepted fit or partial fit call every automaton state lies in [-N, N-1] for the configured number of states N, and one training presentation moves an automaton by at most one step per feedback it received, never wrapping around. The storage width chosen for a model can represent every value of that range.",
 ["histories","inputs","configurations"],"every in-range pre-state, including both ends of the range and of each storage type, every sample, response and random draw; by induction every training history",
 "tests drive the feedback routines with a few seeds and mid-range states; saturation at both ends for each storage width and for every random draw is not enumerated",
 [CL,BW,TA,ST],[("saturating increments and decrements",CL+" block1, block2, block3; "+BW+" block1_sparse, block2, block3"),("storage width selection",ST+" normalize_counting_type")],
 [("automaton states","integer in [-N, N-1]","lib/src/ta_state.hpp")],["clone_state after fit/partial_fit"])
p("C06","Clause weights stay within [1, max_weight] and move only with their clause",
 "In a weighted model every clause weight stays between 1 and the configured maximum after any fit or partial fit. A weight grows by one, unless at the maximum, exactly when its clause receives recognition feedback while matching the sample, and shrinks by one, unless it is 1, exactly when its clause receives rejection feedback while matching; otherwise it does not change. An unweighted model carries no weights.",
 ["histories","inputs","configurations"],"every valid pre-state, weight and maximum, sample and random draw; by induction every training history",
 "tests check a handful of weight updates away from the limits; the limits and the joint behaviour with feedback for arbitrary draws are not covered",
 [CL,BW,TA],[("weight update in automata training",CL+" train_classifier_automata, train_regressor_automata; "+BW+" same")],
 [("clause weights","integer votes, stored less one","lib/src/ta_state.hpp")],["clone_state after partial_fit"])
p("C07","Bit-vector models keep inclusion bits equal to automaton signs",
 "In every bit-vector model, freshly initialised, trained, saved and restored, or copied, the packed inclusion bit of each literal is set exactly when the corresponding automaton state is non-negative, and all padding bits beyond the last feature are clear. Hence a bit-vector model predicts exactly as its automaton states dictate, whatever the number of features.",
 ["histories","inputs","configurations"],"every coherent pre-state, sample, feedback and random draw, feature counts within a block, at and across block boundaries; by induction every training history",
 "tests compare signs and bits after training with a few seeds; a missed flip at a particular state, bit position or boundary needs a specific history",
 [BW,TA,JS,"lib/include/basic_bit_matrix.hpp"],[("polarity flips on sign change",BW+" block1_sparse, block2, block3"),("polarity initialisation",TA)],
 [("inclusion bits","packed copy of the automaton signs","lib/src/ta_state.hpp")],["clone_state, predict"])
p("C08","One classifier training step applies exactly the Type I or Type II rules",
 "When one sample is presented to a classifier, each clause either stays untouched or receives one feedback: clauses voting for the sample's label and clauses voting against the sampled other label receive recognition (Type I), the rest of those two labels' clauses receive rejection (Type II), and clauses of all other labels stay untouched. Rejection moves by one step towards inclusion exactly the excluded automata of false literals, and only if the clause matches. Recognition of a matching clause strengthens automata of true literals (all of them when boosting is on, else randomly drawn ones) and weakens randomly drawn automata of false literals; recognition of a non-matching clause only weakens randomly drawn automata; no automaton leaves its range.",
 ["inputs","histories","configurations"],"every valid pre-state, sample, label, boost setting and random draw within the bounds, in both flavours",
 "tests call the automata update on a few shapes with seeded randomness and compare two implementations; they do not check the rule for arbitrary states and draws or through the public call",
 [CL,BW,TS],[("automata training",CL+" train_classifier_automata; "+BW+" train_classifier_automata"),("per-sample update",TS+" classifier_update_impl")],None,["partial_fit then clone_state"])
p("C09","Clause feedback is granted with the vote-dependent probability, per clause",
 "For a presented sample each clause of the target label is granted feedback independently with probability (T - v)/(2T) and each clause of the sampled other label with probability (T + v)/(2T), where v is that label's decision score during training (empty clauses counting as matching) limited to [-T, T], up to single-precision rounding. Consequently a target label already at +T and another label already at -T receive no feedback at all, and at the opposite extremes every clause receives feedback.",
 ["inputs","configurations"],"every model state, threshold, weight assignment, sample and random draw within the bounds",
 "tests check the selection helper on a few vote values with statistical tolerance; the boundary values, weighting and the link from votes to probabilities are not covered for all inputs",
 [CL,TS],[("feedback selection",CL+" calculate_classifier_feedback_to_clauses"),("vote summation during training",TS+" classifier_update_impl")],None,["partial_fit then clone_state"])
p("C10","One regressor training step corrects the error in the right direction",
 "When one sample is presented to a regressor whose clamped vote sum (empty clauses counting as matching) equals the target, nothing changes. If the votes are too low only recognition (Type I) feedback is applied, if too high only rejection (Type II), to at most as many clause updates as there are clauses; the number of updates is the loss of the relative error times the number of clauses, rounded, or zero or one at random when that is below one half. With the normal-approximation option the number of updates is a draw around the mean limited to between zero and the number of clauses, a draw below zero counting as zero.",
 ["inputs","histories","configurations"],"every valid pre-state, sample, target, threshold, loss function and random draw within the bounds, in both flavours",
 "tests train on one data set with fixed seeds; the sign, rounding and clamping logic is exercised only for the values those runs meet",
 [CL,BW,"lib/src/loss_fn.cpp","lib/src/box_muller_approx.cpp",TS],[("regressor automata training",CL+" train_regressor_automata; "+BW+" train_regressor_automata"),("loss functions","lib/src/loss_fn.cpp"),("normal approximation of a binomial draw","lib/src/box_muller_approx.cpp")],None,["partial_fit then clone_state"])
p("C11","Fit starts from scratch and is a function of parameters, seed and data",
 "Calling fit on a model that was fitted before, with whatever data, gives exactly the same model as calling it on a fresh model with the same parameters: states, weights, shapes and later random behaviour. Partial fit on an unfitted model equals fit. A freshly initialised model (zero epochs) has every automaton at one of the two states adjacent to the decision boundary and every weight equal to 1.",
 ["histories","inputs","configurations"],"every previous model content, seed, data set and shape within the bounds, all four estimators",
 "tests fit fresh estimators; refitting, refitting with another shape and leftovers of earlier training are histories no test walks",
 [TA,ST,CA,TS],[("state initialisation",ST+" initialize_state, "+TA),("scratch cache reset",CA)],None,["fit, partial_fit, clone_state"])
p("C12","Queries leave the model unchanged and repeatable",
 "Predicting, scoring, evaluating, reading parameters and cloning do not change what the model is: its parameters, automata, weights and random streams stay as they were, and any later training or query gives the result it would have given without them. Asking the same question twice gives the same answer, whatever was asked or trained in between on other samples without modifying the model.",
 ["histories","inputs"],"every model content, every query, every content of the internal scratch buffers left by earlier calls",
 "tests do not compare models before and after queries; leftovers in scratch buffers only matter for particular sequences of calls",
 [TS,"lib/src/estimator_state.hpp",CA],[("mutable scratch cache","lib/src/estimator_state.hpp"),("const query paths",TS)],None,["predict, decision_function, evaluate, clone_state, partial_fit"])
p("C13","Saving and restoring a model as JSON preserves it exactly",
 "For each of the four estimators, saving a fitted model to JSON text and restoring it yields an equal model: same parameters with the same types, automata, weights, inclusion bits and random streams. The restored model gives the same predictions and, when training continues, evolves exactly like the original.",
 ["inputs","histories","configurations"],"every fitted model content within the bounds: all automaton values of each storage width, all weights, every seed, every position and content of the random streams",
 "tests round-trip a few trained models; extreme values (seeds and weights above the signed range, boundary states, part-consumed random streams) are not enumerated",
 [JS,ES,MT],[("state (de)serialisation",JS),("integer re-typing of parameters after parsing",JS+" from_json_string"),("state equality",ES)],None,["to_json_string, from_json_string, partial_fit, predict"])
p("C14","Invalid data is rejected with the documented error and no change",
 "Training rejects, with a value error and without altering the model, empty X or y, different lengths, ragged rows, byte values other than 0 and 1, set padding bits, negative labels, a classifier fit that would end with fewer than two labels, responses outside [0, threshold] and, on a fitted model, a different number of features or a label beyond the model's labels; every other input is accepted. Prediction and scoring answer not-fitted on an unfitted model, reject malformed samples the same way, and accept every well-formed one.",
 ["inputs","histories"],"every byte value in every position, every label and response value, every size combination within the bounds, fitted and unfitted models, all four estimators",
 "tests probe one bad value in one position for each rule; they do not show that no other malformed input is accepted, nor that no valid one is refused, nor that the model is left alone",
 [TS],[("input validation",TS+" check_X_y, check_X, check_labels, check_response_y, check_for_predict")],None,["fit, partial_fit, predict, decision_function"])
p("C15","Model parameters are validated exactly, from JSON text or named arguments",
 "Building an estimator from JSON text never throws: it succeeds exactly when the text is an object of known keys whose values have the right type and range, and otherwise reports a bad-JSON error. Building from named arguments, in any order, applies the same range rules. On success every given parameter is kept as given, every other one takes its documented default, a job count of -1 becomes a positive number, a missing seed is replaced by a fresh one, and arguments passed as variables keep their values.",
 ["inputs","configurations"],"every integer, float and seed value of every parameter, alone and with others; wrong types for every key; argument orders",
 "tests try a few good and bad values per key; the exact boundaries, wrong JSON types and all float values are not enumerated",
 [PA,PC,"lib/include/arg_extract.hpp","lib/include/tsetlini.hpp"],[("parameter parsing and range checks",PA),("named argument extraction","lib/include/arg_extract.hpp")],None,["make_*_from_json, make_*, read_params"])
p("C16","Model shape follows data and parameters",
 "After an accepted fit the model has exactly max(highest label + 1, requested labels) labels (two or more), as many features as the samples, one positive and one negated automaton row per clause, one weight per clause when weighted and none otherwise; decision scores have one entry per label. Later partial fits, whatever labels or label counts they pass, never change this shape, and every label within it can be trained and predicted without touching memory outside the model.",
 ["inputs","configurations","histories"],"every label set, requested label count, feature count and clause count within the bounds",
 "tests use a few fixed label counts; label counts above, equal to and below the data's, gaps in labels and odd shapes are not enumerated",
 [TS,PC,TA,CA],[("label and feature bookkeeping",TS+" fit_classifier_impl"),("clause counts",PC),("buffer sizing",CA+", "+TA)],None,["fit, partial_fit, read_params, clone_state, decision_function"])
p("C17","Each epoch presents every sample once, paired with a different other label",
 "Training for E epochs presents every sample exactly once per epoch, each with its own label or response, in some order; zero epochs present nothing. In a classifier the other label paired with a sample is always a valid label different from the sample's own, and every such label can be drawn.",
 ["inputs","histories"],"every random draw, label, number of labels, sample count and epoch count within the bounds",
 "tests see only aggregate accuracy; a skipped or repeated sample or a label never drawn changes nothing they measure",
 [TS],[("epoch loop and shuffle",TS+" fit_classifier_online_impl, fit_regressor_online_impl"),("other label sampling",TS+" generate_opposite_y")],None,["partial_fit then clone_state"])
p("C18","Recognition feedback touches the fraction of automata set by specificity",
 "Each Type I random selection over F features with specificity s picks exactly floor(F/s) or ceil(F/s) distinct features (F/s taken in single precision), the larger number with a probability equal to the fractional part of F/s; with s = 1 it picks all of them. In a bit-vector model recognition of a non-matching clause makes the same number of draws per literal polarity, lowering each drawn automaton not already at its minimum.",
 ["inputs","configurations"],"every s, F and random draw within the bounds",
 "tests check the selection statistically on a few sizes; exactness of the count for every s, F and draw, and its rounding, is not checked",
 [CT,CL,BW],[("exact coin tosser",CT),("sparse decrement",BW+" block1_sparse")],None,["partial_fit then clone_state"])
p("C19","Random streams are reproducible, copyable and stay in range",
 "Two generators seeded alike, or one copied from another at any point, produce the same values forever after, independently of each other; comparing generators for equality agrees with that. A bounded integer draw always lies within its inclusive bounds and a float draw lies in (0, 1].",
 ["inputs","histories"],"every seed, every position in the stream including the refill boundary, every generator content within the bounds",
 "tests never exercise the generator directly; a copy at an unlucky position or an unlucky draw is never met",
 [MT],[("generator refill, copy and comparison",MT)],None,["IRNG and FRNG"])
p("C20","Bit and numeric containers store and return exactly what was put in",
 "In the bit vectors, bit matrices and numeric matrices used for samples and models, writing, setting, clearing, flipping or assigning one element changes that element only, reads return the last value written, and sizes, block counts, tail bit counts and equality agree with the stored elements. Building a bit vector from a range of values or bytes keeps every element in order and leaves the padding clear.",
 ["inputs","histories"],"every size around the block boundaries for each block width, every content, every index, every operation from every state",
 "tests run a few sizes and random fills; boundary sizes with arbitrary contents and every index are not enumerated",
 ["lib/include/basic_bit_vector.hpp","lib/include/basic_bit_matrix.hpp","lib/include/basic_bit_vector_companion.hpp","lib/include/basic_numeric_matrix.hpp"],[("bit vector operations","lib/include/basic_bit_vector.hpp"),("bit matrix operations","lib/include/basic_bit_matrix.hpp"),("range construction","lib/include/basic_bit_vector_companion.hpp"),("padded numeric rows","lib/include/basic_numeric_matrix.hpp")],None,["container API"])
p("C21","Copies of a model are equal and independent",
 "A cloned state, and an estimator built from a state, equals the source in every observable respect: same parameters, predictions and continued training. Training, refitting or destroying either one never affects the other.",
 ["histories","inputs"],"every model content and every training step applied to either copy",
 "tests clone and compare once right after cloning; divergence or sharing that shows only on later training is not covered",
 [TS,"lib/src/estimator_state.hpp",ES,MT],[("state copy","lib/src/estimator_state.hpp"),("clone_state and construction from state",TS)],None,["clone_state, estimator constructors, partial_fit"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
