"""writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})
TV = 'src/types/tensor_views/'; TI = 'src/types/tensor_impls/'; BT = 'src/types/base_tensors.hpp'
p('T01', 'Tensors never change after construction',
  'Once a tensor (stored or derived) exists, no operation on it - reading elements, asking its shape, reducing it, printing it, saving it, or using it as an operand of another operation - alters its elements or shape. Reading the same element twice always gives the same number.',
  ['inputs', 'histories'], 'every tensor class, every operation, every sequence of reads',
  'Tests read each tensor once or twice; immutability is a statement about all later reads through every alias (views share their operands).',
  [BT, TI, TV], [('element stores are only written while constructing', TI + 'full_tensor.hpp'), ('views compute on demand from their operands', TV)])
p('T02', 'Derived tensors have the elements their operation defines',
  'Every derived tensor (sum, difference, element-wise and matrix products, transpose, reshape and flatten, concatenation, channel and window selection, padding, rotation, convolution and cross-correlation, scaling, clipping, masking, rounding, powers, logs, softmax derivative and so on) returns, at every row, column and channel, exactly the value the operation defines in terms of its operands. Constant, identity and function tensors return the constant, the identity and the function value at every position.',
  ['inputs', 'programs'], 'every operand shape and content, every element position, every composition of operations',
  'Tests compare a few small fixed tensors for a subset of the operations; off-by-one, swapped index or wrong-channel mistakes show only for particular shapes (non-square, several channels, edge windows).',
  [BT, TV], [('getValue of each view', TV), ('getValue of generated tensors', TI + 'identity_tensor.hpp')])
p('T03', 'Shapes of tensors are right and impossible shapes are refused',
  'Every tensor reports the row, column and channel count its operation defines for its operands, so that every position inside the reported shape can be read without reading outside an operand. Combining operands whose shapes the operation cannot combine throws instead of producing a tensor.',
  ['inputs', 'programs'], 'every operand shape and every operation',
  'Only a few shapes and hardly any rejected combinations are tested.',
  [BT, TV], [('rowCount/columnCount/channelCount overrides', TV), ('constructor validation', TV)])
p('T04', 'Storing a tensor keeps every element at its place',
  'Materialising a tensor or nested list of numbers in any of the storage precisions keeps its shape, and the element at every position is the source element at that position converted to that precision (for full precision, unchanged; for the reduced ones the number produced by that precision\'s own conversion). No element is dropped, duplicated, transposed or taken from another position.',
  ['inputs'], 'every source tensor, every shape, all four storage precisions and all constructors',
  'Tests store a few small tensors, mostly single-channel and square.',
  [TI, 'src/types/quarter_float.hpp', 'src/types/half_float.hpp'], [('constructors that copy element by element', TI + 'full_tensor.hpp'), ('conversions applied at store and load', TI + 'half_tensor.hpp')])
p('T05', 'A saved tensor is read back identically',
  'The bytes a tensor writes when saved are, field for field in the same order, width and byte order, what every storage type expects when reading a tensor from a stream or file, including the shape header and the order of the elements. Every element is written exactly once and read exactly once.',
  ['inputs', 'configurations'], 'every tensor, every storage precision on the reading side, every shape',
  'Tests save and load at most a couple of shapes; an agreement between writer and readers must hold for every shape and precision.',
  [BT, TI, 'src/util/portable_bytes.hpp'], [('BaseTensor::save', BT), ('assignFromStream of each stored tensor', TI)])
p('T06', 'Reductions and statistics account for every element exactly once',
  'Sums, products, minima, maxima, means, index-of-extreme queries, dot or iterated products and row/column extraction over a tensor take every element of the requested range into account exactly once and no element outside it. Tensor statistics count every finite element once, whether the work is done in turn or in parallel pieces, and their percentiles, minimum and maximum are those of the counted distribution. Asking whether a derived tensor depends on another tensor looks through all of its operands.',
  ['inputs'], 'every tensor shape and content',
  'A few hand-written tensors are reduced in tests; missing channels, last rows or one operand of a view do not show on them.',
  [BT, 'src/util/tensor_utils.hpp', 'src/util/tensor_stats.hpp', TV], [('min/max/sum/product/indices helpers', BT), ('contains', BT), ('bags of tensor statistics', 'src/util/tensor_stats.hpp')])
p('M01', 'Predicting does not change the model',
  'Running the network for prediction (not for training) leaves every trained parameter, every optimizer quantity and every state that later training or saving reads exactly as it was, for every layer type and activation. A prediction is a function of the model and the given input alone.',
  ['inputs', 'histories', 'programs'], 'every layer type, any number and order of predictions interleaved with training',
  'Tests predict after training and look at outputs once; leaked state only matters for the next training step or later prediction.',
  ['src/ml/layers', 'src/ml/neural_network_node.hpp', 'src/ml/neural_network.hpp'], [('forTraining flag of forward', 'src/ml/base_layer.hpp'), ('predict', 'src/ml/neural_network.hpp')])
p('M02', 'Layers compute their transform forward and its adjoint backward',
  'For every layer the output is the layer\'s documented function of its input and parameters, the error it passes back to its predecessor is the product of the incoming error with that function\'s derivative with respect to the input, and the parameter change it hands to the optimizer is the product with the derivative with respect to the parameter (averaged over the batch for the dense and bias layers). Inputs kept for training are consumed in the order they were produced.',
  ['inputs', 'histories'], 'every input, error and batch size, every layer configuration',
  'Training tests only observe that loss falls on toy problems; a wrong but correlated gradient passes.',
  ['src/ml/layers'], [('forward/backward/apply of each layer', 'src/ml/layers')])
p('M03', 'Optimizers apply exactly their published update rule',
  "Each optimizer changes a parameter according to its published rule (plain gradient descent, momentum, Adam - here without bias correction) using the learning rate for that kind of parameter (weights or bias), its decay constants and its own per-parameter state. The moments of one registered parameter never influence another; all parameters share only the optimizer's learning-rate schedule, which depends on the training step alone.",
  ['inputs', 'histories'], 'every gradient, parameter value, time step and number of registered parameters',
  'Tests only check that training converges.',
  ['src/ml/optimizer.hpp', 'src/ml/optimizers'], [('calculateWeightsChange / calculateBiasChange', 'src/ml/optimizers'), ('registration ids', 'src/ml/optimizers')])
p('M04', 'Loss derivatives are the derivatives of the losses',
  "For every loss function the reported error, loss and derivative follow the loss's definition, and the derivative handed to back-propagation is, element by element, the derivative of the reported per-element error with respect to the prediction, for the mean-style losses up to the averaging over the elements. Losses that take logarithms clamp predictions to [1e-8, 1-1e-8] first, and no finite prediction makes them infinite.",
  ['inputs'], 'every truth and prediction',
  'Tests evaluate losses on a few pairs or not at all.',
  ['src/ml/loss.hpp', 'src/ml/losses'], [('compute_error/compute_loss/compute_loss_derivative', 'src/ml/losses')])
p('M05', 'Activation derivatives are the derivatives of the activations',
  'Each activation maps every element by its defining formula (softmax over the whole tensor), and its derivative, evaluated at the same input, is the mathematical derivative of that formula wherever it exists. The approximating variants are judged against their own formula, and softmax hands its error through because the derivative of the cross entropy it is paired with is already that of the pair.',
  ['inputs'], 'every input value and shape',
  'Four activation tests evaluate fixed inputs for tanh only.',
  ['src/ml/activation.hpp', 'src/ml/activators'], [('activate/derivative', 'src/ml/activators')])
p('M06', 'Training stops exactly when a stopping rule says so',
  'Training stops after an epoch if and only if at least the minimum number of epochs has run and one of the configured conditions holds: maximum epochs, maximum elapsed time, too many epochs without improvement (patience), the test loss degrading against the training loss, or a loss of at most the zero tolerance; a loss that is not a number ends training with an error instead. The reason reported is one whose condition holds. The elapsed time and epoch count given to the rule are those of the whole training run.',
  ['histories', 'configurations'], 'every sequence of epoch losses, every elapsed time, every configuration',
  'Tests train a few epochs under one configuration.',
  ['src/ml/exit_strategy.hpp', 'src/ml/neural_network.hpp'], [('isDone/whyDone', 'src/ml/exit_strategy.hpp'), ('training loop condition', 'src/ml/neural_network.hpp')])
p('M07', 'Training with best retention ends with the best weights and no leftovers',
  'When training retains the best model, the weights are saved whenever the test loss reaches a new minimum and at no other time, those weights are loaded again before training returns, and the temporary checkpoint is removed when training ends, also when it ends because the loss is not a number. Every record of every epoch is used, the gradients of the last partial batch are applied, and the loss of an epoch is the mean of its batch losses.',
  ['histories', 'fault_sequences'], 'every sequence of losses, every exit from training, every batch size',
  'Training tests do not use checkpoints of worse epochs or error exits.',
  ['src/ml/neural_network.hpp'], [('train', 'src/ml/neural_network.hpp'), ('saveKnowledge/loadKnowledge/removeKnowledge', 'src/ml/neural_network.hpp')])
p('M08', 'Forward and backward reach every connected layer once all inputs are there',
  'A layer with several predecessors is evaluated once, only after all of them have delivered, with its inputs in connection order; back-propagated error is delivered to every predecessor, and a layer feeding several successors receives their errors combined with equal weight, each counted once, after all have reported. Parameters are applied once per batch, saved, loaded and counted for every layer reachable from the inputs. Limiting the norm of errors scales each error by its own norm.',
  ['programs', 'inputs'], 'every network graph',
  'Test networks are chains or a single simple branch.',
  ['src/ml/neural_network_node.hpp'], [('forwardFromConnection/backward/apply/doForward', 'src/ml/neural_network_node.hpp')])
p('P01', 'A model configuration is read back as it was written',
  'Every setting of the model and of each layer that is written into the saved model description is read back from the same position of the same record with the same meaning, and no setting that affects prediction or later training is left out. Rebuilding the model from the description gives layers with the same settings connected in the same way.',
  ['programs', 'configurations'], 'every network that can be described with the building interface',
  'One save/load test with a fixed small network exists; columns that hold default values in it can be swapped unnoticed.',
  ['src/ml/happyml_dsl.hpp'], [('build_node_metadata / createModelForTraining', 'src/ml/happyml_dsl.hpp'), ('loadNeuralNetworkForTraining', 'src/ml/happyml_dsl.hpp')])
p('P02', 'Every option name converts to a distinct string and back to itself',
  'For each enumerated option (node type, activation, loss, optimizer, and so on) every value has a distinct textual name and reading that name back yields the same value; unknown names are refused. Every option value that can be chosen selects the component of that name when the network is built.',
  ['inputs', 'configurations'], 'every enumerator of every option type',
  'Tests convert one or two values by way of one saved model.',
  ['src/ml/enums.hpp', 'src/ml/happyml_dsl.hpp', 'src/ml/optimizer_factory.hpp'], [('...ToString / stringTo... pairs', 'src/ml/enums.hpp'), ('component selection', 'src/ml/neural_network.hpp')])
p('P03', 'Each layer loads exactly the parameters it saved',
  'Every parameter tensor that training changes is written when knowledge is saved and restored into the same parameter of the same layer when it is loaded, under a name no other parameter of that layer or another layer uses. Saving changes nothing in the model.',
  ['programs', 'configurations'], 'every layer type, every network, every storage precision',
  'The save/load tests cover dense layers with one configuration.',
  ['src/ml/layers', 'src/ml/neural_network_node.hpp'], [('saveKnowledge/loadKnowledge', 'src/ml/layers')])
p('F01', 'Saving without overwrite never destroys existing data',
  "Unless the caller asked to overwrite, saving a model, knowledge, task or dataset never removes or rewrites a complete model, task or dataset, or any file outside the target, that existed before; when the target exists it reports an error or uses a new location (named by the clock), and then everything belonging to the save goes to that new location. Destructive operations are only ever applied to locations derived from the caller's target, working files live under it, and logs are appended to.",
  ['inputs', 'fault_sequences', 'configurations'], 'every prior content of the target location and every overwrite choice',
  'Tests run in fresh folders.',
  ['src/ml/neural_network.hpp', 'src/ml/happyml_dsl.hpp', 'src/util/task_utils.hpp', 'src/util/dataset_utils.hpp'], [('overwrite guards before remove_all', 'src/ml/neural_network.hpp')])
p('F02', 'Failure to open a file is reported, not ignored',
  'Whenever a file that must be read or written cannot be opened, the operation reports the failure (throws or returns its failure result) before using the stream. No reader or writer silently continues with an unopened file.',
  ['fault_sequences', 'inputs'], 'every file operation of the readers, writers, tensors, encoders and scripts, each failing at open',
  'Tests only use files that can be opened.',
  ['src/util/file_reader.hpp', 'src/util/file_writer.hpp', 'src/util/portable_bytes.hpp', BT, 'src/ml/byte_pair_encoder.hpp'], [('is_open checks', 'src/util/file_reader.hpp')])
p('D01', 'A dataset file is read back exactly as written',
  "The binary dataset format is written and read with the same sequence of fields, widths and byte order for the header, each column's description and each record, so every column description and every value of every record is read back unchanged. The position computed for a record is the position where the writer put it.",
  ['inputs', 'configurations'], 'every number and kind of columns, labels, names and records',
  'Tests write and read a few fixed datasets.',
  ['src/util/file_writer.hpp', 'src/util/file_reader.hpp', 'src/util/column_metadata.hpp'], [('writeHeader/writeRow', 'src/util/file_writer.hpp'), ('readHeader/readRow', 'src/util/file_reader.hpp')])
p('D02', 'Scaling of columns is undone by its inverse',
  "Normalising and standardising map a value with the column's own statistics, and the corresponding restoring operations are exact algebraic inverses (up to rounding) applied in the opposite order with the same statistics; a column holding a single value is left unscaled. The statistics used for a column are those measured over that column only.",
  ['inputs'], 'every value, column and statistic (non-degenerate columns)',
  'Tests check one or two numbers.',
  [TV, 'src/util/dataset_utils.hpp', 'src/util/pretty_print_row.hpp'], [('normalize/denormalize, standardize/unstandardize', TV), ('normalize_and_standardize_dataset', 'src/util/dataset_utils.hpp')])
p('D03', 'A pass over a dataset visits each record once',
  'From a restart until the end is reported, every dataset delivers each of its records exactly once (in shuffled order when a shuffler is set) and then reports the end until it is restarted, and the reported record count is the number delivered. A split by a positive fraction is the beginning of the file and one by a negative fraction the end of it, so that complementary splits neither overlap nor leave a record out. The readers of text files deliver every line of every file they are given, except one header line per file when told so.',
  ['histories', 'inputs'], 'every dataset size, shuffle and interleaving of reads and restarts',
  'Tests iterate a few records of tiny in-memory sets.',
  ['src/training_data/training_dataset.hpp', 'src/util/shuffler.hpp'], [('nextRecord/restart', 'src/training_data/training_dataset.hpp'), ('Shuffler', 'src/util/shuffler.hpp')])
p('D04', 'Encoded values are placed where decoding looks for them',
  'Turning labels, numbers, text or images into tensors puts each value at the position of its own row, column, channel or label, never outside the tensor, and leaves every other position at the background value; decoding inspects every position and returns the label or value stored at the position found. The label order used for decoding is the order used for encoding, and values given for a prediction are encoded like those of the dataset.',
  ['inputs'], 'every label set, number of values, image size and text',
  'Tests encode a few fixed strings.',
  ['src/training_data/data_encoder.hpp', 'src/training_data/data_decoder.hpp', 'src/util/one_hot_encoder.hpp'], [('encode', 'src/training_data/data_encoder.hpp'), ('decode', 'src/training_data/data_decoder.hpp')])
p('X01', 'Text written with escapes is read back unchanged',
  'Encoding a text field for a delimited file and decoding it gives the original text (without surrounding white space) for every text, including text that already contains delimiters, newlines or the escape sequences themselves; an encoded field contains no raw delimiter or newline. Writer and reader of delimited files use the same delimiter handling, for every delimiter that is not itself a quote, a line end, part of a number or of an escape sequence.',
  ['inputs'], 'every field text and delimiter',
  'Tests try a few strings.',
  ['src/util/text_encoder_decoder.hpp', 'src/util/file_writer.hpp', 'src/util/file_reader.hpp'], [('encode/decode replacement order', 'src/util/text_encoder_decoder.hpp')])
p('X02', 'Sorting a text file keeps every line',
  'Sorting a file, with or without a header line, writes every input line that is not empty exactly once and in order (a header stays first), also when the file is split into several chunks and when the last chunk is partial; lines equal to the one before are left out only when duplicates are to be deleted. Temporary files are removed once they are merged.',
  ['inputs', 'configurations'], 'every number of lines, chunk size and header setting',
  'The sorter tests use files far smaller than a chunk.',
  ['src/util/text_file_sorter.hpp'], [('chunk split and merge', 'src/util/text_file_sorter.hpp')])
p('B01', 'Byte-pair encodings decode to the original text',
  'Encoding replaces pairs by their codes in the order the codes were learned, and decoding expands codes in exactly the opposite order using the same table, so decoding an encoding gives the text back. A saved table is loaded into the same table.',
  ['inputs', 'histories'], 'every training text, every encoded text',
  'Tests round-trip a few sentences.',
  ['src/ml/byte_pair_encoder.hpp'], [('encode/decode/buildVocab/save/load', 'src/ml/byte_pair_encoder.hpp')])
p('L01', 'Every statement the language documents is recognised and executed',
  'Every keyword and symbol the language defines is produced by the lexer for its text in any letter case, is looked for by the parser where the grammar documents it, and every parsed statement kind yields an executable statement with the values given in the script. The parser consumes the tokens of a statement it accepts, so that no input makes it loop forever.',
  ['programs', 'inputs'], 'every script',
  'Parser tests run a few scripts.',
  ['src/lang'], [('lexer patterns', 'src/lang/lexer/lexer_patterns.hpp'), ('parser', 'src/lang/parser/parser.hpp')])
p('L02', 'The parser never reads past the end of its tokens',
  'No script text, however truncated or malformed, makes the parser or interpreter read a token that is not there, index outside a container or dereference a missing object; it reports a parse error instead.',
  ['inputs'], 'every script text, in particular every truncation of a valid script',
  'Tests parse well-formed scripts and one or two malformed ones.',
  ['src/lang/parser/parser.hpp', 'src/lang/lexer/token.hpp', 'src/lang/interpreter.hpp'], [('hasNext guards', 'src/lang/lexer/token.hpp')])
p('L03', 'A failing statement stops the script and is reported',
  'When a statement fails, no later statement of the script runs and the failure with its message reaches the caller of the interpreter, as a result, an exception or the error stream; an exit request ends the script likewise. A script that does not parse executes none of its statements.',
  ['programs', 'fault_sequences'], 'every script and every failing or exiting statement position',
  'Tests execute scripts whose statements all succeed.',
  ['src/lang/statements', 'src/lang/interpreter.hpp'], [('CodeBlock::execute', 'src/lang/statements/code_block_statement.hpp'), ('interpretCode/interpretFile', 'src/lang/interpreter.hpp')])
p('L04', 'Statements validate their arguments before touching anything',
  'Creating or executing a task or dataset checks names, referenced datasets, the location and type of the source file and the columns described before creating, deleting or overwriting any file. Names that could escape the repository folder are refused, and creating a dataset that is already there changes nothing.',
  ['inputs', 'programs'], 'every statement and argument combination',
  'Tests use valid arguments.',
  ['src/lang/statements', 'src/util/task_utils.hpp', 'src/util/dataset_utils.hpp'], [('validation at the head of execute', 'src/lang/statements')])
p('H01', 'Hyper-parameter search keeps the best configuration it evaluated',
  'Hyperband and random search evaluate only configurations drawn from their declared ranges, eliminate the worse-scoring configurations and never the best one, and report as best the configuration with the best score among those evaluated. Elimination always leaves at least one configuration.',
  ['histories', 'inputs'], 'every sequence of evaluation scores and search-space size',
  'There is no test of the search.',
  ['src/ml/hyperband'], [('eliminateConfigurations / updateBest', 'src/ml/hyperband')])
p('C01', 'Parallel loops do not race',
  'Wherever the library runs work in parallel, every variable or container that two iterations could both modify is protected by a common lock or is only touched at the iteration\'s own position, so the result does not depend on scheduling.',
  ['schedules'], 'every interleaving of the parallel iterations',
  'Tests run one schedule per execution.',
  ['src'], [('std::for_each(execution::par) bodies', 'src'), ('mutex guards', 'src')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
