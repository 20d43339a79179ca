#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
S = "ink_stroke_modeler/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     mechanism=[dict(name=n, where=S+w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Input-stream protocol: exactly the well-formed calls are accepted",
 "Update accepts an input exactly when the modeler has been initialized, the event type is known, position and time are finite, the input is neither identical to nor earlier than the previous input of the stroke in progress, a Down arrives only while no stroke is in progress and a Move or Up only while one is, and modeling it needs no more than max_outputs_per_call samples and overflows nothing. "
 "Calls made in the wrong state (uninitialized, Down during a stroke, Move or Up without one, Predict without a stroke or with prediction disabled, parameterless Reset before initialization) fail with FailedPrecondition, and malformed inputs or parameters fail with InvalidArgument. "
 "An accepted Down starts a stroke, an accepted Up ends it, and Reset abandons it.",
 ["histories","inputs"], "every sequence of Reset/Update/Predict/Save/Restore calls, with every kind of valid and malformed input at every point",
 "The tests try each malformed call once, after one fixed prefix; whether it is answered correctly after every other history (after an error, a Reset, an Up, a Restore) is not tested, and the stroke_modeler tests are not even run in this build.",
 ["stroke_modeler.cc","types.cc","internal/position_modeler.cc"],
 [("order and validity checks at the head of Update","stroke_modeler.cc:Update"),("in-progress stroke is represented by the presence of a last input","stroke_modeler.cc:last_input_"),("ValidateInput","types.cc"),("sample limit","internal/position_modeler.cc:NumberOfStepsBetweenInputs")],
 ["status code of every call"])

prop("C02", "Rejected calls leave no trace",
 "A call that returns an error has no effect: after a rejected Update, Reset or Predict the modeler behaves in every later call exactly as if that call had never been made. "
 "A rejected Update leaves the results vector exactly as it was, and a rejected Predict leaves it empty.",
 ["histories","inputs","configurations"], "every kind of rejected call, at every position of every call history, under every combination of modeling stages",
 "The tests check the returned status of a rejected call, hardly ever what the stroke looks like afterwards; which internal stage was updated before the rejection is only visible in later outputs.",
 ["stroke_modeler.cc","internal/position_modeler.cc","internal/wobble_smoother.cc","internal/stylus_state_modeler.cc"],
 [("all checks come before any stage is updated","stroke_modeler.cc:ProcessMoveEvent, ProcessUpEvent, ProcessDownEvent"),("parameters are validated before they are stored","stroke_modeler.cc:Reset")],
 ["results and statuses of all later Update and Predict calls","contents of the results vector after the rejected call"])

prop("C03", "Save and Restore rewind the stroke exactly",
 "After Restore the modeler behaves in every later Update and Predict exactly as it did right after the latest Save of the current stroke, whatever inputs came in between (including the end of that stroke), and Restore can be repeated any number of times from the same Save. "
 "Save itself changes no output. Restore does nothing when Save has not been called for this stroke, i.e. not since the latest Down or Reset.",
 ["histories","configurations"], "every interleaving of Save, Restore, inputs, predictions, stroke ends and resets, under every combination of modeling stages and predictors",
 "The tests save and restore at one or two points of one stroke; a stage or a field that is not saved shows only when the inputs between Save and Restore changed exactly that field and later outputs depend on it.",
 ["stroke_modeler.cc","internal/position_modeler.h","internal/wobble_smoother.cc","internal/stylus_state_modeler.cc","internal/loop_contraction_mitigation_modeler.cc","internal/prediction/input_predictor.h"],
 [("each stage saves and restores a copy of its state","internal/*: Save(), Restore()"),("predictor is copied","internal/prediction/*.h:MakeCopy"),("save_active_","stroke_modeler.cc")],
 ["results and statuses of all later Update and Predict calls"])

prop("C04", "Predict never disturbs the stroke and is repeatable",
 "Calling Predict any number of times at any points of a stroke changes no result of any later Update, Predict, Save or Restore. "
 "What it returns depends only on the parameters and the inputs accepted so far, so calling it again without new input gives the same prediction, and it replaces whatever the results vector held.",
 ["histories","configurations"], "every subset of the points of a stroke at which Predict is called, under every predictor and combination of modeling stages",
 "The tests call Predict at fixed points and compare with golden numbers recorded with those very calls; no test compares a stroke modeled with predictions against the same stroke modeled without.",
 ["stroke_modeler.cc","internal/prediction/kalman_predictor.cc","internal/prediction/stroke_end_predictor.cc","internal/loop_contraction_mitigation_modeler.cc"],
 [("Predict is const; the loop mitigation state is copied; the scratch buffer holds no state","stroke_modeler.cc:Predict")],
 ["results of Predict and of all later Update calls"])

prop("C05", "Strokes do not influence each other",
 "The results and predictions of a stroke depend only on the current parameters and on the inputs of that stroke: whatever was modeled before its Down (finished, abandoned by Reset, rejected or restored strokes, other parameters, other predictors) makes no difference, and neither does what the caller later does with the objects it passed to Reset and Update.",
 ["histories","configurations"], "every sequence of earlier strokes, resets and parameter changes before a stroke",
 "The tests model at most one stroke per modeler or compare with golden numbers of the first one; state left in a stage by an earlier stroke needs a particular pair of strokes (and parameters) to show.",
 ["stroke_modeler.cc","internal/wobble_smoother.cc","internal/stylus_state_modeler.cc","internal/position_modeler.h","internal/loop_contraction_mitigation_modeler.cc","internal/prediction/kalman_predictor.cc"],
 [("every stage is reset by Down","stroke_modeler.cc:ProcessDownEvent")],
 ["results and predictions of the later stroke, against a new modeler"])

prop("C06", "Modelers are independent of each other and deterministic",
 "Any number of StrokeModeler objects can be used side by side: however the calls to them are interleaved, in one thread or several, each behaves exactly as if it were the only one, in a fresh process, given the same calls. A modeler that is moved carries on exactly where it was.",
 ["schedules","histories","configurations"], "every interleaving of the call sequences of two modelers, with equal or different parameters",
 "No test uses two modelers at the same time; hidden shared state (a cache, a scratch buffer, a static) shows only under particular interleavings.",
 ["stroke_modeler.h","stroke_modeler.cc","internal/utils.cc","internal/prediction/kalman_filter/kalman_filter.cc","internal/prediction/kalman_filter/axis_predictor.cc"],
 [("all state is held in members of the object","stroke_modeler.h")],
 ["results and statuses of every call on each object"])

prop("C07", "Output timing and sample counts",
 "The Down yields one result at exactly the input's position and time with zero velocity and acceleration; every accepted Move or Up yields at least one result; over the whole stroke result times never decrease and successive results are never further apart than 1/min_output_rate. "
 "A Move ends with a result at the input's time (up to rounding) and yields as many evenly spaced results as the output rate requires (one if no time has passed), or more if the turning-angle limit is enabled and requires it. "
 "No call yields more than max_outputs_per_call results, and an input that would need more is rejected.",
 ["inputs","histories","configurations"], "every stroke (any time steps including zero and very long ones) and every sampling configuration",
 "The tests use a few fixed rates and golden outputs; the exact boundaries (step equal to a whole number of samples, equal to the limit, one beyond, zero, angle limit just reached) are sampled once or never.",
 ["stroke_modeler.cc","internal/position_modeler.cc","internal/position_modeler.h","internal/prediction/stroke_end_predictor.cc","internal/prediction/kalman_predictor.cc"],
 [("number of steps","internal/position_modeler.cc:NumberOfStepsBetweenInputs"),("linear resampling","internal/position_modeler.h:UpdateAlongLinearPath"),("fallback result when no time has passed","stroke_modeler.cc")],
 ["number and times of results"])

prop("C08", "Positions follow the documented spring-and-drag model",
 "For every stroke (loop mitigation off) the position, velocity and acceleration of each result are those of the documented model: the anchor moves in equal steps along the straight line from the previous to the new (smoothed) input, and at each step acceleration is (anchor - position) / spring_mass_constant - drag_constant * velocity, then velocity advances by acceleration and position by the new velocity over the elapsed time, up to rounding.",
 ["inputs","histories","configurations"], "every sequence of input positions and time steps, every model and sampling configuration",
 "The tests check a handful of steps and golden strokes at typical values; a defect conditioned on a direction change, pause, repeated timestamp, sample count or earlier part of the stroke is not sampled, and none of these tests is run in this build.",
 ["internal/position_modeler.cc","internal/position_modeler.h","stroke_modeler.cc"],
 [("one integration step","internal/position_modeler.cc:PositionModeler::Update"),("resampling","internal/position_modeler.h:UpdateAlongLinearPath")],
 ["position, velocity, acceleration of results"])

prop("C09", "End-of-stroke catch-up approaches the last input and stops",
 "After Up, the samples beyond the input's time keep following the spring model with the anchor fixed at the final input position, starting with steps of 1/min_output_rate; a step that would pass the point closest to the anchor is discarded and the step halved. "
 "It stops once the tip is within end_of_stroke_stopping_distance of the anchor, once a step would move less than that distance (that step is not output, unless the call would otherwise yield nothing), or after end_of_stroke_max_iterations tries, and never outputs more than max_outputs_per_call results in all.",
 ["inputs","histories","configurations"], "every state the tip can be in at Up, every stopping distance, iteration limit and spring configuration",
 "The tests look at three hand-made tip states and golden strokes; which of the three stop conditions ends the loop, and how often the step is halved before, depends on the whole stroke.",
 ["internal/position_modeler.h","stroke_modeler.cc"],
 [("catch-up loop","internal/position_modeler.h:ModelEndOfStroke"),("fallback when nothing was added","stroke_modeler.cc:ProcessUpEvent")],
 ["results appended by Up"])

prop("C10", "Stroke-end prediction is what lifting the pen now would add",
 "With the stroke-end strategy, Predict returns exactly the positions, velocities, accelerations and times that an Up at the last input's position and time would append (wobble smoothing, loop mitigation and turning-angle upsampling off), and with wobble smoothing it catches up with the smoothed instead of the raw position of the last input. "
 "When Up would add no catch-up sample the prediction is empty.",
 ["histories","inputs","configurations"], "every prefix of every stroke, every sampling and spring configuration",
 "The tests compare the predictor with golden numbers and never with the actual end of the stroke.",
 ["internal/prediction/stroke_end_predictor.cc","internal/position_modeler.h","stroke_modeler.cc"],
 [("the predictor runs the end-of-stroke model on a copy of the tip state","internal/prediction/stroke_end_predictor.cc:ConstructPrediction")],
 ["results of Predict and of Up"])

prop("C11", "Kalman prediction is gated, bounded and follows the documented filter",
 "With the Kalman strategy, Predict returns nothing until min_stable_iteration inputs of the stroke have been received (or while no time has passed between them); after that it returns samples spaced exactly 1/min_output_rate apart, first a cubic from the last result to the filter's estimate matching position and velocity at both ends, then the estimate's cubic extrapolation, which covers no more than prediction_interval (rounded up to whole samples), scaled down by the product of the four documented confidence factors. "
 "Estimate, sample counts and sample values are those of the documented constant-jerk filter, up to rounding, and never more than max_outputs_per_call in all.",
 ["inputs","histories","configurations"], "every stroke, every Kalman and sampling configuration",
 "The Kalman tests are not compiled in this build, and the axis tests feed four hand-made series; the interplay of gating, time-sample window, weights and confidence factors depends on the whole input history.",
 ["internal/prediction/kalman_predictor.cc","internal/prediction/kalman_filter/kalman_filter.cc","internal/prediction/kalman_filter/axis_predictor.cc","internal/prediction/kalman_filter/matrix.h"],
 [("filter","internal/prediction/kalman_filter/kalman_filter.cc"),("connector and extrapolation","internal/prediction/kalman_predictor.cc"),("confidence","internal/prediction/kalman_predictor.cc:NumberOfPointsToPredict")],
 ["results of Predict"])

prop("C12", "Pressure, tilt and orientation come from the recent raw input",
 "From the first input of the stroke whose pressure is unknown (negative or NaN) on, every modeled result has pressure -1, likewise for tilt and for orientation, each independently; the Down's result repeats the input's own values. "
 "Otherwise each value is interpolated at the projection of the tip onto the polyline of the recent inputs (the closest point, or along the stroke normal as documented), so pressure and tilt stay between the smallest and the largest value in that window and orientation is in [0, 2*pi), taken along the shorter arc. "
 "The window holds the latest max_input_samples inputs, or with normal projection the fewest latest inputs that satisfy both min_input_samples and min_sample_duration.",
 ["inputs","histories","configurations"], "every stroke with any mixture of known, unknown and NaN stylus values, any geometry and any window configuration",
 "The tests query hand-made polylines of two to five points; window eviction, projection choice and unknown-value stickiness over a whole stroke, per field, are sampled once each, and none of these tests is run in this build.",
 ["internal/stylus_state_modeler.cc","internal/utils.cc","internal/utils.h","stroke_modeler.cc"],
 [("unknown flags","internal/stylus_state_modeler.cc:Update"),("projection","internal/stylus_state_modeler.cc:Query"),("interpolation","internal/utils.cc:InterpResult, internal/utils.h:InterpAngle")],
 ["pressure, tilt, orientation of results"])

prop("C13", "Wobble smoothing is a windowed, speed-gated moving average",
 "With smoothing disabled, the model follows the raw input positions; enabled, it follows instead, for each Move, the duration-weighted average of the inputs in the timeout window (as documented) blended with the raw position according to the average speed in that window: all average at or below speed_floor, all raw at or above speed_ceiling, linear in between. "
 "The Down and the Up position are never smoothed, and if no time has passed in the window the raw position is used.",
 ["inputs","histories","configurations"], "every sequence of positions and time steps, every timeout and speed range",
 "The tests run three hand-made sequences of up to ten points; eviction from the window at exact boundaries, repeated timestamps and pauses longer than the window are not covered, and none of these tests is run in this build.",
 ["internal/wobble_smoother.cc","internal/utils.h","stroke_modeler.cc"],
 [("moving window","internal/wobble_smoother.cc:Update"),("corrected position feeds model, stylus state and predictor","stroke_modeler.cc:ProcessMoveEvent")],
 ["positions of results"])

prop("C14", "Loop contraction mitigation blends model and raw input by recent speed",
 "With the mitigation disabled every result is the spring model's; enabled, position, velocity and acceleration of each result lie between their values at the projection on the raw input polyline and the spring model's, at the strength that the average speed of the results in the sampling window maps to (strength at the lower bound at or below it, at the upper bound at or above it, linear in between; 1 before the first sample). "
 "Times and stylus values are unaffected by the strength, and predictions use the same rule without affecting the stroke.",
 ["inputs","histories","configurations"], "every stroke and every mitigation configuration (strengths, speed bounds, windows)",
 "The component tests feed constant speeds to the class alone; the feedback of blended results into the speed window over a stroke is only seen in one golden test that this build does not run.",
 ["internal/loop_contraction_mitigation_modeler.cc","stroke_modeler.cc","internal/utils.cc","internal/stylus_state_modeler.cc"],
 [("speed window and strength","internal/loop_contraction_mitigation_modeler.cc"),("blending","stroke_modeler.cc:ModelStylus")],
 ["position, velocity, acceleration of results"])

prop("C15", "Exactly the documented parameter sets are accepted",
 "Reset with parameters (and each public validation function) succeeds exactly when every parameter that is in use satisfies its documented constraint: finite, positive or non-negative, ordered bounds, strengths and confidence within [0, 1], caps on iteration and window sizes, angle limit -1 or within (0, pi), and normal projection enabled whenever loop mitigation is; otherwise it fails with InvalidArgument. "
 "Parameters of disabled features are ignored.",
 ["inputs","configurations"], "every combination of boundary, ordinary, infinite and NaN values of the parameters",
 "The tests perturb one field at a time from one valid set; relations between fields, enable flags, limits themselves and NaN are hardly covered.",
 ["params.cc","params.h","internal/validation.h"],
 [("validation functions","params.cc"),("range helpers","internal/validation.h")],
 ["status of Reset and of the validation functions"])

prop("C16", "The model does not depend on units, origin of time or axis directions",
 "Expressing the same stroke and parameters in another unit of distance or time (in which the parameters are still valid), shifting all times, or rotating the coordinate system by quarter turns or (without stroke normal projection) mirroring it gives the same accepted inputs and the same results and predictions expressed in the new units, up to rounding (the Kalman filter's two noise variances stay as they are, since it is linear in the positions).",
 ["inputs","configurations"], "every stroke and configuration, for unit changes over many orders of magnitude",
 "All tests use one scale near 1; an absolute epsilon or a hard-coded unit passes all of them.",
 ["stroke_modeler.h","internal/position_modeler.cc","internal/utils.cc","internal/wobble_smoother.cc","internal/stylus_state_modeler.cc","types.cc"],
 [("all thresholds are parameters or dimensionless","whole library")],
 ["results and predictions, transformed back"])

prop("C17", "Every call returns, without undefined behaviour and with usable values",
 "For any valid parameters and any inputs whatsoever, including infinities, NaN, huge and denormal values, every call returns in bounded time and memory without crashing, undefined behaviour or memory errors, and the memory in use does not grow with the number of inputs or strokes beyond what the configured windows hold. "
 "For strokes of ordinary magnitude sampled at a rate for which the spring model is stable, every result and prediction is finite (apart from a NaN stylus value repeated by the Down's own result).",
 ["inputs","histories","configurations"], "every sequence of inputs over extreme and ordinary values, every valid configuration including extreme ones",
 "The fuzz test is not built here and samples at random; the unit tests use ordinary values only.",
 ["stroke_modeler.cc","types.cc","internal/position_modeler.cc","internal/utils.h","internal/utils.cc","internal/prediction/kalman_predictor.cc","internal/stylus_state_modeler.cc","internal/wobble_smoother.cc"],
 [("input validation","types.cc:ValidateInput"),("sample limits","internal/position_modeler.cc:NumberOfStepsBetweenInputs"),("angle normalization","internal/utils.h:InterpAngle"),("estimate validation","internal/prediction/kalman_predictor.cc:GetEstimatedState")],
 ["sanitizer reports, process outcome, finiteness of results"])

prop("C18", "Value types obey their algebra",
 "Vec2, Duration and Time arithmetic is componentwise, compound assignments agree with their binary forms, comparisons form the order of the underlying values, and Input and Result are equal exactly when all fields are equal. "
 "The angle between two vectors is symmetric, in [0, pi], independent of their lengths (as long as these neither overflow nor are denormal), 0 if either is zero, and an error exactly if a component is not finite. "
 "Formatting a value shows all its fields in order, so values that print differently differ.",
 ["inputs"], "every pair of values over a grid of ordinary, boundary, infinite and NaN values, every field",
 "types_test is not compiled in this build and checks one or two pairs per operator.",
 ["types.h","types.cc"],
 [("operators","types.h"),("AbsoluteAngleTo, ToFormattedString","types.cc")],
 ["return values"])

prop("C19", "Update only appends, whatever the caller keeps in the vector",
 "Update appends its new results behind whatever the results vector holds without altering, reordering or depending on those elements, so results delivered earlier never change: clearing, truncating, reusing, replacing or pre-filling the vector between calls changes nothing in what is appended.",
 ["histories","configurations"], "every pattern of keeping, clearing, truncating, moving away or refilling the vector between the calls of a stroke",
 "The tests pass an empty vector, or always the accumulated one; only mixed patterns can show a dependence on the contents.",
 ["stroke_modeler.cc","internal/utils.cc"],
 [("results are pushed back one by one","stroke_modeler.cc:ModelStylus, ProcessDownEvent")],
 ["contents of the results vector before and after each Update"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties", [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
