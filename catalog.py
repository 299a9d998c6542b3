"""The properties (source of properties.jsonl and MANIFEST.json)."""
CORE = 'tensorflow_model_optimization/python/core/'
SP = CORE + 'sparsity/keras/'
PROPS = []
NA = []


def prop(pid, title, statement, over, quant, why, files, mech, note='',
         technique=None):
  PROPS.append(dict(
      id=pid, title=title, statement=statement, over=over, quant=quant,
      why=why, files=files, mech=mech, note=note, technique=technique))


def na(pid, title, statement, over, quant, why, files, mech, reason):
  prop(pid, title, statement, over, quant, why, files, mech)
  NA.append((pid, reason))


prop('P01', 'Masks and thresholds change only when the schedule says so',
     'During training the mask and threshold of every prunable weight are '
     'recomputed exactly on the steps the pruning schedule selects, from the '
     'current weight and the current step, and are left as they are on all '
     'other steps. Outside training they never change.',
     ['histories', 'schedules', 'configurations'],
     'every sequence of training and inference calls, every schedule and '
     'every set of prunable weights',
     'Tests run a few steps of two schedules on small layers; the guarantee '
     'is about every step of every history.',
     [SP + 'pruning_impl.py', SP + 'pruning_wrapper.py'],
     [('mask update is conditional on the schedule',
       SP + 'pruning_impl.py:conditional_mask_update'),
      ('call() runs it in training only', SP + 'pruning_wrapper.py:call')])
prop('P02', 'Pruned weights are masked before the layer runs',
     'Every forward pass of a pruned layer, in training and in inference, '
     'multiplies each prunable weight by its own mask before the wrapped layer '
     'computes its output. At the end of every epoch the same masking is '
     'applied to every pruned layer of the model, including those in nested '
     'models.',
     ['histories', 'inputs', 'programs'],
     'every forward pass, every model structure, every optimiser update '
     'between two passes',
     'Tests look at a handful of models after a few steps; masks must be '
     'applied on every path through every model.',
     [SP + 'pruning_impl.py', SP + 'pruning_wrapper.py',
      SP + 'pruning_callbacks.py'],
     [('weight masking op', SP + 'pruning_impl.py:weight_mask_op'),
      ('epoch-end masking', SP + 'pruning_callbacks.py:UpdatePruningStep')])
prop('P03', 'Masks drop exactly the smallest-magnitude weights',
     'The mask keeps the entries whose magnitude is at least the k-th largest, '
     'where k is the rounded number of entries to keep at the current '
     'sparsity (never below one), and the threshold is that magnitude. Block '
     'pruning decides whole blocks by their pooled magnitude and m-by-n pruning '
     'zeroes the m smallest of every n consecutive entries; masks have the '
     'shape of the weight they belong to.',
     ['inputs', 'configurations'],
     'every weight tensor, block shape, pooling type, sparsity and m-by-n '
     'pattern',
     'Numeric tests sample single tensors; ties, edge blocks and shapes are '
     'unbounded.',
     [SP + 'pruning_impl.py', SP + 'pruning_utils.py'],
     [('mask formula', SP + 'pruning_impl.py:_update_mask'),
      ('block expansion', SP + 'pruning_utils.py:expand_tensor'),
      ('m-by-n mask', SP + 'pruning_utils.py:generate_m_by_n_mask')])
prop('P04', 'Pruning schedules follow their formula and validate parameters',
     'A schedule selects a step exactly when it lies between its begin and end '
     'step (an end step of -1 meaning forever) and a multiple of the frequency '
     'after the begin step; constant schedules report their target and '
     'polynomial ones interpolate from the initial to the final sparsity with '
     'the given power, clamped outside the interval. Constructors reject '
     'sparsities outside [0, 1), negative begin steps, end steps below the begin '
     'step and non-positive frequencies.',
     ['inputs', 'configurations'],
     'every step and every combination of schedule parameters',
     'Tests evaluate the formula at a few steps.',
     [SP + 'pruning_schedule.py'],
     [('step selection', SP + 'pruning_schedule.py:_should_prune_in_step'),
      ('parameter validation', SP + 'pruning_schedule.py:_validate_step')])
prop('P05', 'The pruning step counter advances once per training batch',
     'Training a pruned layer without the step callback is an error raised '
     'before any mask is touched. With it, the pruning step of every pruned '
     'layer whose counter was never started is set to zero when a training run '
     'begins, restored counters continue from their value, and the step grows '
     'by exactly one per training forward pass, never in inference. Pruned '
     'layers of nested models are included.',
     ['histories'],
     'every sequence of fit, evaluate and predict calls, and every model '
     'structure',
     'Tests run one or two fits; the counter must be right over any history.',
     [SP + 'pruning_callbacks.py', SP + 'pruning_wrapper.py'],
     [('step assignment', SP + 'pruning_callbacks.py:on_train_batch_begin'),
      ('step increment', SP + 'pruning_wrapper.py:call')])
prop('P06', 'Pruning wraps exactly what it should, with the given parameters',
     'Asking to prune a layer, a list of layers or a whole model wraps each '
     'prunable layer exactly once with the caller\'s parameters, leaves already '
     'wrapped layers and layers the policy refuses untouched, and rejects '
     'unsupported layers, subclassed models and unknown pooling types with a '
     'value error. For built-in layers the pruned weights are exactly the '
     'kernels listed for that layer type, for every cell of recurrent layers.',
     ['programs', 'configurations'],
     'every model structure, layer type and wrapper configuration',
     'Tests cover a few models and layer types.',
     [SP + 'prune.py', SP + 'prune_registry.py', SP + 'pruning_wrapper.py'],
     [('wrapping', SP + 'prune.py:prune_low_magnitude'),
      ('registry', SP + 'prune_registry.py:PruneRegistry')])
prop('P07', 'Stripping pruning restores the wrapped layers',
     'Stripping a pruned Keras model replaces every pruning wrapper, also in '
     'nested models, by the very layer it wraps and keeps every other layer as '
     'it is. Anything that is not a Keras model is rejected.',
     ['programs'],
     'every model structure',
     'Tests strip a few models.',
     [SP + 'prune.py'],
     [('strip', SP + 'prune.py:strip_pruning')])
prop('P08', 'The latency policy accepts exactly what the runtime can run',
     'The XNNPack latency policy prunes only 1x1 two-dimensional convolutions '
     'and declares a layer supported exactly when its type, kernel, stride, '
     'dilation, padding and activation match the documented list. A model is '
     'rejected unless it is a built graph or sequential model with the '
     'documented start and end layers and only supported layers in between.',
     ['programs', 'configurations'],
     'every layer configuration and model graph',
     'Tests try a few layer settings out of a large product.',
     [SP + 'pruning_policy.py'],
     [('layer support', SP + 'pruning_policy.py:_check_layer_support'),
      ('model check', SP + 'pruning_policy.py:ensure_model_supports_pruning')])

CL = CORE + 'clustering/keras/'
prop('C01', 'Clustered weights follow the nearest centroids in every forward pass',
     'Every forward pass of a clustered layer, in training and in inference, '
     'first re-assigns every clusterable weight: each entry of the original '
     'weight gets the index of the centroid with the smallest absolute '
     'difference, and the layer attribute of exactly that weight (in the '
     'right cell for recurrent layers, in the right sublayer for '
     'MultiHeadAttention) becomes the centroids gathered at those indices. '
     'Only then is the wrapped layer called, with the caller\'s inputs and '
     'training flag, and its result returned.',
     ['histories', 'inputs', 'programs'],
     'every forward pass, every weight and centroid value, every supported '
     'layer type',
     'Tests look at a few layers after a few steps; the association must hold '
     'for all weights after every optimiser update.',
     [CL + 'cluster_wrapper.py', CL + 'clustering_algorithm.py'],
     [('association update', CL + 'cluster_wrapper.py:ClusterWeights.'
       'update_clustered_weights_associations'),
      ('nearest centroid', CL + 'clustering_algorithm.py:ClusteringAlgorithm.'
       'get_pulling_indices')])
prop('C02', 'Sparsity-preserving clustering keeps zero weights zero',
     'With preserve_sparsity, build records for every clusterable weight a '
     'mask of the entries that are not clustered to zero and the index of the '
     'centroid closest to zero. In every forward pass that centroid is reset '
     'to exactly zero and the original weight is multiplied by the mask before '
     'it is associated. Centroid initialisation puts one centroid at zero and '
     'shares the others between the negative and the positive weights in '
     'proportion to their numbers; without preserve_sparsity nothing is masked '
     'or zeroed.',
     ['histories', 'inputs', 'configurations'],
     'every forward pass, every weight distribution, every number of clusters',
     'The tests check sparsity of two models after a short training run.',
     [CL + 'cluster_wrapper.py', CL + 'clustering_centroids.py'],
     [('masked association', CL + 'cluster_wrapper.py:ClusterWeights.'
       'update_clustered_weights_associations'),
      ('zero centroid', CL + 'clustering_centroids.py:'
       'AbstractCentroidsInitialisation._zero_centroid_initialization')],
     note='The bound on the number of distinct values and the survival of '
     'sparsity under training are consequences of these per-step facts and '
     'are not proved numerically.')
prop('C03', 'strip_clustering restores the original layers, clustered',
     'strip_clustering refreshes the associations of every clustered layer and '
     'replaces the wrapper by a layer of the same class and configuration '
     'whose weights are the layer\'s own weights with the clustered '
     'values in place of the clusterable ones, in the order in which the '
     'layer lists its weights. Other layers are returned unchanged.',
     ['inputs', 'programs', 'histories'],
     'every model accepted by cluster_weights, at any point of training',
     'Tests strip a few small models; order and configuration matter for '
     'every layer type.',
     [CL + 'cluster.py', CL + 'cluster_wrapper.py'],
     [('strip', CL + 'cluster.py:strip_clustering'),
      ('weight order', CL + 'cluster_wrapper.py:ClusterWeights.'
       'strip_clustering')],
     note='For MultiHeadAttention the wrapped layer itself is reused.')
prop('C04', 'Centroids start at the requested initialisation',
     'cluster_centroids_init selects the documented algorithm and nothing '
     'else; unknown values are rejected. LINEAR spaces the centroids evenly '
     'from the smallest to the largest weight, RANDOM draws them uniformly '
     'between these, KMEANS_PLUS_PLUS runs k-means++ on the flattened weights, '
     'DENSITY_BASED inverts the cumulative distribution of the weights. The '
     'centroid variables of every clusterable weight start at these values, '
     'have the dtype of the weight, are trainable and number '
     'number_of_clusters (per channel for per-channel clustering).',
     ['inputs', 'configurations'],
     'every initialisation, number of clusters and weight distribution',
     'Tests compare two of the four formulas on hand-written arrays.',
     [CL + 'clustering_centroids.py', CL + 'cluster_wrapper.py'],
     [('factory', CL + 'clustering_centroids.py:CentroidsInitializerFactory'),
      ('centroid variables', CL + 'cluster_wrapper.py:ClusterWeights.build')])
prop('C05', 'cluster_weights wraps exactly the supported layers, or refuses',
     'cluster_weights accepts a Keras model, a layer or a list of layers and '
     'raises for anything else, for an unsupported initialisation, for '
     'subclassed models, for fewer than two clusters (three with '
     'preserve_sparsity) or a number that is no int, and for layers neither '
     'registered nor clusterable themselves. Every layer of a list, and of a '
     'functional or sequential model including its nested models, is wrapped '
     'once with the caller\'s parameters; input layers, layers already '
     'clustered and Conv2D layers with no more weights (per channel, for '
     'per-channel clustering) than clusters are left alone. The '
     'clusterable weights of a built-in layer are exactly: the kernel of dense '
     'and convolution layers, the pointwise kernel of separable convolutions, '
     'the embeddings, both kernels of every recurrent cell, the four '
     'projection kernels of MultiHeadAttention; depthwise convolutions, '
     'normalisations and layers without weights have none.',
     ['inputs', 'configurations', 'programs'],
     'every argument, every layer type and every set of parameters',
     'Tests cover some layer types and one set of parameters each.',
     [CL + 'cluster.py', CL + 'cluster_wrapper.py',
      CL + 'clustering_registry.py'],
     [('entry point', CL + 'cluster.py:cluster_weights'),
      ('constructor checks', CL + 'cluster_wrapper.py:ClusterWeights.__init__'),
      ('clusterable weights', CL + 'clustering_registry.py:'
       'ClusteringRegistry.get_clusterable_weights')])
prop('C06', 'Per-channel clustering keeps channels separate',
     'With cluster_per_channel, a Conv2D kernel with channels last is '
     'clustered one output channel at a time: the centroids of a channel are '
     'initialised from the weights of that channel, its weights are associated '
     'with and gathered from those centroids only, and the result has the '
     'shape of the kernel. Layers other than Conv2D keep one set of centroids.',
     ['inputs', 'configurations'],
     'every kernel shape and value, every number of channels and clusters',
     'The tests check one convolution with three channels.',
     [CL + 'clustering_algorithm.py', CL + 'clustering_centroids.py',
      CL + 'clustering_registry.py'],
     [('per-channel lookup', CL + 'clustering_algorithm.py:'
       'ClusteringAlgorithmPerChannel')],
     note='channels_first is excluded: the code slices the input-channel axis '
     'there (recorded in DESIGN.md).')
prop('C07', 'Cluster gradients are summed or averaged as requested',
     'The gradient of a centroid is the sum of the gradients of the weights '
     'associated with it for GradientAggregation.SUM, and that sum divided by '
     'the number of those weights (zero for an empty cluster) for AVG; other '
     'values are rejected. The original weight receives the gradient of the '
     'clustered weight unchanged, and neither device changes the values of '
     'the forward pass.',
     ['inputs', 'histories'],
     'every gradient, association and cluster size',
     'Tests check two hand-written examples.',
     [CL + 'clustering_algorithm.py'],
     [('averaged gradient', CL + 'clustering_algorithm.py:ClusteringAlgorithm.'
       'average_centroids_gradient_by_cluster_size'),
      ('straight-through gradient', CL + 'clustering_algorithm.py:'
       'ClusteringAlgorithm.add_gradient_to_original_weight')],
     note='The forward value of the straight-through estimator is the '
     'clustered weight times sign(weight + 1e6), i.e. itself for weights '
     'above -1e6.')

QZ = CORE + 'quantization/keras/'
prop('Q01', 'Range updates of the training quantizers',
     'In training LastValueQuantizer sets its minimum and maximum to those of '
     'the batch (per channel if per_axis is set), MovingAverageQuantizer '
     'moves them towards those of the batch with its moving average, and '
     'AllValuesQuantizer keeps the extremes seen so far. The minimum is '
     'never above zero and the maximum never below it, and with symmetric '
     'set the range that is stored is symmetric around zero (one step wider '
     'below unless narrow_range is set).',
     ['inputs', 'histories', 'configurations'],
     'every tensor, every sequence of batches and every quantizer '
     'configuration',
     'Tests feed one or two fixed tensors; the ranges are a function of '
     'unbounded inputs and histories.',
     [QZ + 'quantizers.py', QZ + 'quant_ops.py'],
     [('range of the batch', QZ + 'quant_ops.py:LastValueQuantize'),
      ('moving average', QZ + 'quant_ops.py:MovingAvgQuantize'),
      ('extremes so far', QZ + 'quant_ops.py:AllValuesQuantize')])
prop('Q02', 'Evaluation quantises with the learned ranges and changes nothing',
     'Outside training a quantizer neither updates its ranges nor looks at the '
     'batch: it quantises with the stored minimum and maximum. In training it '
     'quantises with the ranges it has just updated. In both cases the '
     'quantisation uses the number of bits, narrow-range flag and granularity '
     '(per tensor or per channel) the quantizer was created with, and the '
     'range weights it creates have one entry per channel exactly when it is '
     'per axis. FixedQuantizer uses its constant range, NoQuantizer returns '
     'its input.',
     ['inputs', 'histories', 'configurations'],
     'every tensor, mode and quantizer configuration',
     'Tests check a few 8-bit per-tensor quantizers.',
     [QZ + 'quantizers.py', QZ + 'quant_ops.py'],
     [('quantiser calls', QZ + 'quantizers.py:LastValueQuantizer.__call__'),
      ('quantisation op', QZ + 'quant_ops.py:_FakeQuantWithMinMaxVars')],
     note='Fixed here: MovingAverageQuantizer created scalar ranges for '
     'per-axis quantisation.')
prop('Q03', 'Activations are quantised where their kind requires it',
     'A quantisation-aware activation quantises its result for linear, relu, '
     'swish and gelu activations and its input for softmax, sigmoid, tanh and '
     'gelu, in both cases with the range weights created for that side and in '
     'the mode (training or not) of the surrounding layer; NoOpActivation '
     'passes through unquantised and any other activation is rejected at '
     'construction. QuantizeLayer quantises its input exactly when it has a '
     'quantizer.',
     ['inputs', 'configurations'],
     'every activation, every input and mode',
     'Tests compare some activations on fixed inputs.',
     [QZ + 'quantize_aware_activation.py', QZ + 'quantize_layer.py'],
     [('activation', QZ + 'quantize_aware_activation.py:'
       'QuantizeAwareActivation.__call__'),
      ('layer', QZ + 'quantize_layer.py:QuantizeLayer.call')])
prop('Q04', 'The wrapped layer computes with quantised weights and activations',
     'On every call, QuantizeWrapper and QuantizeWrapperV2 quantise every '
     'weight its QuantizeConfig lists, with the quantizer and range weights '
     'created for that very weight and in the current mode, hand the '
     'quantised weights and the quantisation-aware activations to the layer '
     'through the config before the layer runs, run the layer once on the '
     'given inputs and arguments (training only if it accepts it), and '
     'quantise its output with the output quantizers of the config.',
     ['inputs', 'programs', 'configurations', 'histories'],
     'every layer, QuantizeConfig, input and mode',
     'Tests wrap a few layers and compare single outputs.',
     [QZ + 'quantize_wrapper.py'],
     [('wrapper', QZ + 'quantize_wrapper.py:QuantizeWrapper.call')])
prop('Q05', 'The default configurations pair each attribute with its quantizer',
     'The 8-bit and n-bit default quantization configurations return exactly '
     'the listed weights and activations of the layer, each with a quantizer '
     'of the documented kind: weights LastValueQuantizer, symmetric, narrow '
     'range (per channel for ConvQuantizeConfig and '
     'ConvTransposeQuantizeConfig kinds), activations and outputs '
     'MovingAverageQuantizer, asymmetric, full range, per tensor, with the '
     'number of bits of the scheme. The setters write each value back to the '
     'attribute it came from and reject lists of another length or weights '
     'of another shape; outputs are quantised exactly when the configuration '
     'says so, and activation configurations reject unsupported activations.',
     ['inputs', 'configurations', 'programs'],
     'every layer, attribute list, number of bits and value written back',
     'Tests check one layer per configuration with the 8-bit scheme.',
     [QZ + 'default_8bit/default_8bit_quantize_configs.py',
      QZ + 'default_8bit/default_8bit_quantize_registry.py',
      QZ + 'experimental/default_n_bit/default_n_bit_quantize_configs.py',
      QZ + 'experimental/default_n_bit/default_n_bit_quantize_registry.py'],
     [('8-bit configurations', QZ + 'default_8bit/'
       'default_8bit_quantize_registry.py:Default8BitQuantizeConfig'),
      ('n-bit configurations', QZ + 'experimental/default_n_bit/'
       'default_n_bit_quantize_registry.py:DefaultNBitQuantizeConfig')],
     note='Fixed here: an n-bit output configuration forgot that a '
     'concatenation had disabled it when it was saved.')
prop('Q06', 'Registries support the listed layers with the right configuration',
     'Default8BitQuantizeRegistry and DefaultNBitQuantizeRegistry support '
     'exactly the documented layer types (recurrent layers only if all their '
     'cells are supported) and give each the configuration with its weight '
     'and activation attributes, its output flag, per-axis kernels for Conv2D '
     'and DepthwiseConv2D unless disable_per_axis is set, and the numbers of '
     'bits the registry was created with; other layers are rejected. A '
     'registry is not affected by another one created later.',
     ['configurations', 'programs', 'histories'],
     'every layer type, registry configuration and order in which registries '
     'are created',
     'Tests check a few layer types with default options.',
     [QZ + 'default_8bit/default_8bit_quantize_registry.py',
      QZ + 'experimental/default_n_bit/default_n_bit_quantize_registry.py'],
     [('8-bit registry', QZ + 'default_8bit/default_8bit_quantize_registry.py:'
       'Default8BitQuantizeRegistry'),
      ('n-bit registry', QZ + 'experimental/default_n_bit/'
       'default_n_bit_quantize_registry.py:DefaultNBitQuantizeRegistry')],
     note='Fixed here: creating a second n-bit registry changed the numbers '
     'of bits of the first.')
prop('Q07', 'Annotation marks exactly what is to be quantised',
     'quantize_annotate_layer rejects anything but a plain Keras layer and '
     'anything but a QuantizeConfig, and wraps the layer with the config it '
     'is given. quantize_annotate_model rejects anything but a Sequential or '
     'functional model and nested models, keeps Lambda and already annotated '
     'layers and annotates every other layer once. quantize_model annotates '
     'and applies quantisation to that annotated model with the layer name '
     'prefix of the caller. An annotated layer computes what the layer '
     'computes.',
     ['inputs', 'programs'],
     'every object passed in, every model and mixture of annotated layers',
     'Tests check single models and a few rejections.',
     [QZ + 'quantize.py', QZ + 'quantize_annotate.py'],
     [('annotate model', QZ + 'quantize.py:quantize_annotate_model'),
      ('annotate layer', QZ + 'quantize.py:quantize_annotate_layer')])
prop('Q08', 'quantize_apply quantises exactly what was annotated, on a copy',
     'quantize_apply rejects objects that are not built Sequential or '
     'functional Keras models with at least one annotated layer. It works on '
     'a clone with the weights of the given model, which is not changed, '
     'removes the annotations, applies the layout transformation of the '
     'scheme and wraps exactly the annotated layers (and the outputs of '
     'layers feeding an annotated one), with the configuration of the '
     'annotation if it has one and that of the registry of the scheme '
     'otherwise, and raises if an annotated layer has no configuration.',
     ['inputs', 'programs', 'configurations'],
     'every model, mixture of annotations, configuration and scheme',
     'Tests quantise a handful of models.',
     [QZ + 'quantize.py'],
     [('apply', QZ + 'quantize.py:quantize_apply')])
prop('Q09', 'Layout transformations fuse layers without changing what they compute',
     'Each transformation of the 8-bit and n-bit schemes matches exactly its '
     'pattern of layers and returns the matched layers with the same '
     'connections, weights and configurations, except: batch-norm patterns '
     'disable the activation of the convolution or dense layer and of the '
     'batch norm in front of a ReLU (never overriding a configuration of the '
     'user), SeparableConv layers become an equivalent depthwise and '
     'pointwise convolution (1-D ones between a squeeze and an expansion of '
     'one dimension) with the weights split over them, the input layer is '
     'followed by a quantizer of the scheme, and a concatenation takes over '
     'the output quantisation of the layers before it if all of them can be '
     'quantised.',
     ['inputs', 'configurations', 'programs'],
     'every pattern, presence of user configurations, layer configuration '
     'and numbers of bits',
     'Tests build one model per transformation.',
     [QZ + 'default_8bit/default_8bit_transforms.py',
      QZ + 'experimental/default_n_bit/default_n_bit_transforms.py'],
     [('8-bit transforms', QZ + 'default_8bit/default_8bit_transforms.py:'
       'ConcatTransform'),
      ('n-bit transforms', QZ + 'experimental/default_n_bit/'
       'default_n_bit_transforms.py:ConcatTransform')],
     note='Fixed here: the ReLU transformations replaced a configuration of '
     'the user. Known finding: a layer directly followed by a ReLU gets no '
     'weight quantizer.')
prop('Q10', 'A layout applies all its transformations in a sound order',
     'The layout of the 8-bit and n-bit schemes applies each of their '
     'transformations once, to the annotated layers only, with the numbers '
     'of bits and the configurations it is given; a transformation runs '
     'before any other whose pattern is a part of its own, and the '
     'batch-norm ones before those of concatenations.',
     ['configurations', 'programs'],
     'every pair of transformations of a scheme and number of bits',
     'Tests quantise models in which few patterns overlap.',
     [QZ + 'default_8bit/default_8bit_quantize_layout_transform.py',
      QZ + 'experimental/default_n_bit/'
      'default_n_bit_quantize_layout_transform.py'],
     [('8-bit layout', QZ + 'default_8bit/'
       'default_8bit_quantize_layout_transform.py:'
       'Default8BitQuantizeLayoutTransform'),
      ('n-bit layout', QZ + 'experimental/default_n_bit/'
       'default_n_bit_quantize_layout_transform.py:'
       'DefaultNBitQuantizeLayoutTransform')],
     note='Fixed here: plain dense batch-norm and concatenation '
     'transformations ran before the more specific ones.')
GT = QZ + 'graph_transformations/'
prop('Q11', 'Graph transformation rewrites exactly the matching layers',
     'ModelTransformer.transform() rebuilds a Sequential or functional model '
     'in which exactly the layers matching the pattern of a transformation '
     '(class, configuration, order and number of inputs; candidate layers '
     'only; layers used once; inner layers consumed nowhere else) are '
     'replaced, each match at most once per transformation and until nothing '
     'matches. Whatever consumed the replaced layer - positionally, by '
     '(nested) keyword, tensor index or as a (nested) model output - '
     'consumes the replacement; the replacement consumes what the match did; '
     'all other layers, connections and call arguments stay, weights and '
     'metadata follow their layers, and the given model and metadata are not '
     'changed.',
     ['inputs', 'programs'],
     'every position of a pattern in a graph and every way its layers are '
     'consumed (shapes of graphs are enumerated, names, configurations and '
     'weights are symbolic)',
     'Tests transform a handful of models, hardly any of them with shared '
     'layers, keyword inputs or nested outputs.',
     [GT + 'model_transformer.py', GT + 'transforms.py'],
     [('transform', GT + 'model_transformer.py:ModelTransformer')],
     note='Fixed here: order of inputs, call arguments, inputs used twice, '
     'nested keyword arguments and nested outputs.')

prop('Q12', 'Fixing or removing ranges changes only inputs and outputs',
     'fix_input_output_range(model, ...) gives exactly the QuantizeLayers '
     'that feed the model a fixed-range quantizer over [input_min, input_max] '
     'and exactly the QuantizeWrapperV2 layers that produce its outputs a '
     'FixedQuantizeConfig with the output range, with the requested bits and '
     'range kind; remove_input_range(model) gives exactly these '
     'QuantizeLayers no quantizer. All else of the model configuration stays '
     'as it was, and a model whose input is not quantized is rejected. '
     'FixedQuantizeConfig quantizes the weights as the wrapped configuration '
     'does and its activations and outputs with the fixed range.',
     ['inputs', 'configurations'],
     'functional and Sequential models with one or more inputs and outputs, '
     'any layers between them',
     'Tests apply them to one or two models.',
     [QZ + 'quantize.py', QZ + 'quantize_config.py'],
     [('fix_input_output_range', QZ + 'quantize.py:fix_input_output_range'),
      ('remove_input_range', QZ + 'quantize.py:remove_input_range'),
      ('FixedQuantizeConfig', QZ + 'quantize_config.py:FixedQuantizeConfig')],
     note='Fixed here: models whose input is not quantized failed in the '
     'middle of the edit.')

SERIAL = [SP + 'pruning_wrapper.py', SP + 'pruning_schedule.py',
          CORE + 'clustering/keras/cluster_wrapper.py',
          QZ + 'quantize_wrapper.py', QZ + 'quantize_annotate.py',
          QZ + 'quantize_layer.py', QZ + 'quantize_config.py',
          QZ + 'quantizers.py', QZ + 'quantize_aware_activation.py',
          QZ + 'default_8bit/default_8bit_quantize_registry.py',
          QZ + 'experimental/default_n_bit/default_n_bit_quantize_registry.py']
prop('S01', 'Saved objects are rebuilt with the same state',
     'For every wrapper, quantize configuration, quantizer and pruning '
     'schedule, from_config(get_config()) succeeds whenever the original '
     'could be constructed and yields an object of the same class whose '
     'constructor leaves it with the same attribute values and gives Keras '
     'the same arguments; no constructor argument is lost. A pruned layer '
     'knows all pruning schedules when it is rebuilt, and a quantization '
     'aware activation is rebuilt as the original activation.',
     ['inputs', 'configurations'],
     'every class of the scopes and every constructor argument',
     'Tests round-trip single configurations, mostly with default values.',
     SERIAL,
     [('pruning wrapper', SP + 'pruning_wrapper.py:from_config'),
      ('clustering wrapper', CORE +
       'clustering/keras/cluster_wrapper.py:from_config'),
      ('quantize wrapper', QZ + 'quantize_wrapper.py:from_config')],
     note='Serialisation by Keras is assumed to be lossless. Fixed here: '
     'sparsity_m_by_n was not saved.')
prop('S02', 'Saving and loading have no side effects',
     'get_config() of a wrapper, quantize configuration, quantizer or '
     'schedule does not change the object, and from_config(config) does not '
     'change the configuration dictionary of the caller, which can be used '
     'again.',
     ['inputs', 'histories'],
     'every class of the scopes and every configuration',
     'Tests use a configuration once.', SERIAL,
     [('fixed range configuration', QZ + 'quantize_config.py:from_config'),
      ('quantize layer', QZ + 'quantize_layer.py:from_config')],
     note='Fixed here: FixedQuantizeConfig.from_config.')
prop('S03', 'The scopes know every class of a saved model',
     'quantize_scope, prune_scope and cluster_scope return a custom object '
     'scope that maps the name of every layer, wrapper, quantize '
     'configuration, quantizer and activation class which the respective '
     'part of the library puts into models to that class, and '
     'quantize_scope adds the objects of the caller.',
     ['configurations', 'programs'],
     'every class defined in the library',
     'Tests reload models that use some of the classes.',
     [QZ + 'quantize.py', SP + 'prune.py', CORE + 'clustering/keras/cluster.py',
      QZ + 'quantizers.py'],
     [('quantize_scope', QZ + 'quantize.py:quantize_scope'),
      ('prune_scope', SP + 'prune.py:prune_scope'),
      ('cluster_scope', CORE + 'clustering/keras/cluster.py:cluster_scope')],
     note='Fixed here: cluster_scope lacked the RNN and MHA wrappers. The '
     'collaborative optimization quantizers are not part of saved '
     'configurations.')
prop('S04', 'Equality means equal configurations',
     'Quantizers and quantize configurations that define equality are equal '
     'to another object of their class exactly if all values they save are '
     'equal, never to an object of an unrelated class, and != is always the '
     'negation of ==.',
     ['inputs'], 'every pair of objects of a class',
     'Tests compare a few pairs.',
     [QZ + 'quantizers.py',
      QZ + 'default_8bit/default_8bit_quantize_registry.py',
      QZ + 'experimental/default_n_bit/default_n_bit_quantize_registry.py',
      QZ + 'quantize_aware_activation.py'],
     [('quantizers', QZ + 'quantizers.py:__eq__'),
      ('8-bit configurations',
       QZ + 'default_8bit/default_8bit_quantize_registry.py:__eq__')],
     note='Fixed here: the configurations compared activation_attrs with '
     'itself.')
CO = QZ + 'collab_opts/'
CP = CO + 'cluster_preserve/'
PP = CO + 'prune_preserve/'
prop('L01', 'Preserving schemes equip exactly Conv2D and Dense layers',
     'Applying the prune-preserve or cluster-preserve registry to a layer '
     'with trainable weights and its default 8-bit configuration replaces '
     'the weight quantizer of Conv2D and Dense by the preserving quantizer '
     'of the same kind (per channel for convolutions), with the requested '
     'sparsity flag, and changes nothing else in the configuration. '
     'DepthwiseConv2D keeps its configuration, layers without trainable '
     'weights too, and every other combination of layer and configuration '
     'is refused. The default preserving registries apply this to the '
     'configuration that the 8-bit registry gives; the preserving schemes '
     'use these registries and the transformations of the default scheme.',
     ['configurations', 'programs'],
     'every layer class and default configuration, with and without '
     'trainable weights, every flag',
     'Tests try a few layers; a lost flag or a wrong quantizer kind only '
     'shows up as slightly worse weights after training.',
     [CP + 'cluster_preserve_quantize_registry.py',
      PP + 'prune_preserve_quantize_registry.py',
      CP + 'default_8bit_cluster_preserve_quantize_scheme.py',
      PP + 'default_8bit_prune_preserve_quantize_scheme.py'],
     [('cluster preserve', CP + 'cluster_preserve_quantize_registry.py:'
       'apply_cluster_preserve_quantize_config'),
      ('prune preserve', PP + 'prune_preserve_quantize_registry.py:'
       'apply_sparsity_preserve_quantize_config')])
prop('L02', 'Preserving quantizers keep zeros and clusters while training',
     'The prune-preserve quantizer multiplies the weights by the sparsity '
     'mask of the layer before quantising them, in training and in '
     'evaluation. In training the cluster-preserve quantizer assigns the '
     'cluster indices of the current weights and replaces the weights by '
     'their centroids, zeroing masked ones first when sparsity is preserved, '
     'and does so only for layers for which clusters were built; both '
     'quantise with the ranges and parameters of the default weight '
     'quantizer. Masks hold one exactly where the initial weights are not '
     'zero. Clusters are the distinct initial values (per channel when '
     'the channels of a convolution have almost equally many), the sparsity mask is only built '
     'when there are zeros, and building for one layer does not affect '
     'others.',
     ['inputs', 'histories', 'configurations'],
     'every weight tensor, sequence of calls and set of layers sharing a '
     'quantizer',
     'Tests fine-tune one small model and count distinct weights once.',
     [CP + 'cluster_preserve_quantize_registry.py',
      PP + 'prune_preserve_quantize_registry.py'],
     [('prune preserve', PP + 'prune_preserve_quantize_registry.py:__call__'),
      ('cluster preserve', CP +
       'cluster_preserve_quantize_registry.py:__call__'),
      ('clusters', CP + 'cluster_preserve_quantize_registry.py:'
       '_build_clusters')],
     note='Fixed here: one layer without zeros disabled sparsity '
     'preservation for all layers sharing the quantizer.')
prop('L03', 'strip_clustering_cqat removes only the training variables',
     'strip_clustering_cqat() removes the clustering and sparsity variables '
     'from every quantised Conv2D and Dense layer of a model, '
     'including those of nested models, and from a single layer; it changes '
     'no other layer and refuses objects that are neither.',
     ['programs', 'configurations'],
     'every model and layer', 'Tests strip a few models.',
     [CP + 'cluster_utils.py'],
     [('strip', CP + 'cluster_utils.py:strip_clustering_cqat')],
     note='Fixed here: layers were chosen by their name.')
prop('X01', 'Shared strategy objects are not changed by the layers using them',
     'No method of a quantizer, quantize configuration, pruning schedule, '
     'pruning policy, registry or quantize scheme, except its constructor, '
     'changes the object, a container it owns or its class, so one object can serve any number of layers and '
     'models in any order.',
     ['histories', 'configurations'],
     'every class defined in the library with one of these bases and every '
     'method',
     'Tests build one model at a time and give each layer its own objects.',
     [QZ + 'quantizers.py', QZ + 'quantize_config.py',
      SP + 'pruning_schedule.py', SP + 'prune_registry.py',
      CORE + 'clustering/keras/clustering_registry.py',
      CP + 'cluster_preserve_quantize_registry.py'],
     [('quantizers', QZ + 'quantizers.py:build'),
      ('schedules', SP + 'pruning_schedule.py:__call__'),
      ('registries', SP + 'prune_registry.py:make_prunable')])

TE = CORE + 'internal/tensor_encoding/'
prop('E01', 'Encoders run every stage of the composition on its own values',
     'For every tree of encoding stages, an Encoder\'s initial_state(), '
     'get_params(), update_state(), encode() and decode() call each stage '
     'exactly once, with the state, parameters, tensors and input shape of '
     'its own node; the output of a stage under a key goes to the child at '
     'that key and is replaced by what the child encodes; outputs without a '
     'child are kept; shapes are recorded for the stages that ask for '
     'them. Aggregation modes, states and updates have the structure of the '
     'tree.',
     ['programs', 'inputs'],
     'a tree covering every branching the code distinguishes (children at '
     'several keys, depth three, values without child), with symbolic '
     'stages, values, parameters and shape requirements',
     'Tests encode with a few chains of two or three stages.',
     [TE + 'core/core_encoder.py'],
     [('encode', TE + 'core/core_encoder.py:_encode_impl'),
      ('decode', TE + 'core/core_encoder.py:_decode_before_sum_impl'),
      ('state', TE + 'core/core_encoder.py:_update_state_impl')])
prop('E02', 'Decoding before and after the sum compose to decoding',
     'decode_before_sum() decodes exactly the stages that have a stage at or '
     'above them which does not commute with sum; decode_after_sum() decodes '
     'the others, giving the number of summands to them, so that one after '
     'the other is decoding with the number of summands at the stages after '
     'the sum, whichever stages commute.',
     ['programs', 'inputs'],
     'every assignment of commuting and non-commuting stages to the tree',
     'Tests cover a few of the exponentially many assignments.',
     [TE + 'core/core_encoder.py'],
     [('before', TE + 'core/core_encoder.py:decode_before_sum'),
      ('after', TE + 'core/core_encoder.py:decode_after_sum')])
prop('E03', 'The commuting structure is true up to the root',
     'Encoder.commuting_structure marks exactly the stages that commute with '
     'sum together with all stages above them, '
     'Encoder.fully_commutes_with_sum is true exactly when all do, and '
     'splitting decode parameters and shapes along it gives each value to '
     'the side of the sum where its stage is decoded, None to the other.',
     ['programs'],
     'every assignment of commuting and non-commuting stages to the tree',
     'Tests cover a few assignments.',
     [TE + 'core/core_encoder.py'],
     [('structure', TE + 'core/core_encoder.py:commuting_structure'),
      ('split', TE +
       'core/core_encoder.py:_split_value_by_commuting_structure')])
prop('E04', 'Composed encoders have the described stages',
     'EncoderComposer.add_parent() and add_child() connect the given stage '
     'at the given key, refuse keys the stage cannot compress, keys '
     'with a child and objects that are no stages; make() builds that tree '
     'with stages without state adapted. identity(), uniform_quantization() '
     'and hadamard_quantization() build the documented chains with the given '
     'bits, and as_simple_encoder() and as_gather_encoder() wrap the given '
     'encoder for the given tensor specification.',
     ['programs', 'configurations'],
     'symbolic stages, keys and arguments',
     'Tests build a few trees.',
     [TE + 'core/core_encoder.py', TE + 'encoders/common_encoders.py',
      TE + 'core/encoding_stage.py'],
     [('composer', TE + 'core/core_encoder.py:add_parent'),
      ('chains', TE + 'encoders/common_encoders.py:hadamard_quantization'),
      ('adapter', TE + 'core/encoding_stage.py:as_adaptive_encoding_stage')])
prop('E05', 'SimpleEncoder and GatherEncoder deliver every value unchanged',
     'SimpleEncoder and GatherEncoder flatten states, parameters and encoded '
     'values for transport and rebuild from them exactly the structures that '
     'the encoder produced, adding back Python values: encode uses the '
     'encoding parameters for the state, decode the '
     'decoding parameters and shapes of the same encoding, and '
     'GatherEncoder gives the parts before and after the sum to the method '
     'that needs them. Missing states default to the initial state. '
     'Arguments that do not have the expected specification are refused, as '
     'are encoders and tensor specifications of the wrong type or without '
     'known shape. GatherEncoder.fully_commutes_with_sum is true exactly when '
     'every stage commutes up to the root.',
     ['programs', 'inputs', 'histories'],
     'every encoder (a symbol for all of its methods), state, parameters and '
     'value',
     'Tests use a few encoders whose keys and structures are simple.',
     [TE + 'core/simple_encoder.py', TE + 'core/gather_encoder.py'],
     [('simple', TE + 'core/simple_encoder.py:decode_fn'),
      ('gather', TE + 'core/gather_encoder.py:from_encoder')],
     note='Fixed here: one key beginning with another decoded wrong values; '
     'fully_commutes_with_sum looked at one stage.')
prop('E06', 'Encoding stages compute the documented transformation and its '
     'inverse',
     'Every encoding stage validates its arguments, hands out the parameters, '
     'encodes and decodes by the documented formula: identity; flattening; '
     'randomised Hadamard and Kashin transforms with padding and the signs of '
     'the seed; uniform quantisation over the range of the input or a '
     'fixed range (stochastic or not, per channel, with shared pseudo-random '
     'dithering), decoding sums with the number of summands; bit packing; '
     'clipping; splitting off small values; differences of integers. Its '
     'compressible keys, its need for the input shape and whether it commutes '
     'with sum are those of the formula.',
     ['inputs', 'configurations'],
     'every input and parameter value; three iterations of the Kashin '
     'transform',
     'Tests sample inputs, and randomised stages are only tested to be close.',
     [TE + 'stages/stages_impl.py', TE + 'stages/research/quantization.py',
      TE + 'stages/research/kashin.py', TE + 'stages/research/clipping.py',
      TE + 'stages/research/misc.py'],
     [('quantisation', TE + 'stages/stages_impl.py:'
       'UniformQuantizationEncodingStage.encode'),
      ('Hadamard', TE + 'stages/stages_impl.py:HadamardEncodingStage.encode'),
      ('Kashin', TE + 'stages/research/kashin.py:'
       'KashinHadamardEncodingStage.encode')])
