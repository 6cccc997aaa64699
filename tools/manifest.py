"""Writes MANIFEST.json (run by hand after changing the list)."""
import json
T = {
 "C01": ("TLC: exhaustive Pipeline model; TLC-generated command histories replayed; recorded runs judged by TLC", "model_checking",
         "Pipeline model exhausted in its bounds; the real tools only on the generated and corpus inputs"),
 "C02": ("TLC decodes real archives with the TLA+ specification of the format", "model_checking",
         "every archive decoded bit by bit by the specification; inputs are a corpus (exhaustive only for tiny ones)"),
 "C03": ("TLC judges recorded runs: Pipeline's outputs are functions of input and options", "model_checking",
         "deliveries, environments, stale memory and five builds are sampled, not enumerated"),
 "C04": ("TLC: definition of the BWT exhausted on short strings; real transforms judged by it", "model_checking",
         "by definition for short blocks, by the inverse walk (shown equivalent on the model) for long ones"),
 "C05": ("TLC generates transforms with starting rows; real inverse judged by TLC", "model_checking",
         "all short strings over small alphabets and every number of starting points; longer blocks sampled"),
 "C06": ("TLC: grammar specification expands real preprocessed data; pipeline histories judged by TLC", "model_checking",
         "exhaustive for short strings, sampled around the thresholds of the replacer"),
 "C07": ("TLC: all legal rounds on short texts keep their meaning; recorded histories of the real Grammar and Postprocessor judged", "model_checking",
         "five or six symbols, two rounds exhausted in the model; the real grammar with random legal histories"),
 "C12": ("TLC judges every prefix of archives: Pipeline model with cuts as crash points", "fault_enumeration",
         "every prefix of small archives, sampled prefixes of large ones"),
 "C13": ("TLC judges runs with injected faults: Pipeline model with fault actions", "fault_enumeration",
         "every system call of small runs failed in turn, every output size limit, memory limits, invalid options"),
 "C14": ("TLC checks the framing of real archives against the specified division into blocks", "model_checking",
         "lengths around all block limits for small -m, sampled otherwise; memory bound measured"),
 "C15": ("TLC compares reported sizes with specified ones on recorded runs", "model_checking", "sampled inputs and options"),
  "C08": ("TLC: range coder model exhausted (narrow instance); real coder's bits and bytes judged by the specification", "model_checking",
         "the model is exhausted with a scaled-down interval; the real 32-bit coder is sampled with adversarial probabilities"),
 "C09": ("TLC: reachable states of every model exhausted; recorded histories of the real models judged", "model_checking",
         "all reachable states of the specified predictors; the real ones on histories driven to the extremes"),
 "C10": ("TLC: codes exhausted on small ranges; real encoders and decoders judged by the specified codes", "model_checking",
         "small ranges and frequency tables exhausted, large values around powers of two sampled"),
 "C11": ("TLC: stream machines with buffers and deliveries exhausted; recorded operation sequences judged", "model_checking",
         "small buffers exhausted in the model; real buffers with sequences around their boundaries"),
 "C16": ("TLC: interleaved encoder objects exhausted for short texts (decoder in step); recorded histories of real coder objects and of Compressor/Decompressor with tiny blocks judged", "model_checking",
         "two objects and two or three blocks exhausted in the model; the real objects with random histories"),
 "C17": ("TLC: all archives a writer may choose for short texts decode to the text; archives written by the TLA+ specification are read by the real decoders, judged by TLC", "model_checking",
         "the writer's choices are exhausted for short texts in the model; sampled for the real decoders, blocks up to 900 bytes"),
 "C18": ("TLC: table machine exhausted for few keys; recorded operation sequences judged", "model_checking",
         "few keys exhausted in the model; 256 keys with random and boundary sequences"),
}
NA = []
try:
    from manifest_more import MORE
    T.update(MORE)
except ImportError:
    pass
m = dict(version=1, setup_cmd="python3 checks/run.py setup",
         checks=[dict(property=k, quick_cmd="python3 checks/run.py " + k,
                      thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s --thorough" % k,
                      technique=v[0], level=v[1], level_note=v[2]) for k, v in sorted(T.items())],
         not_applicable=NA)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
