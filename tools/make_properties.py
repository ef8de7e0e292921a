"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe_at, state=None, hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in (state or [])],
            'observe_at': observe_at,
            'hook_needed': hook,
        },
    })


# ------------------------------------------------------------------ data
prop('D01', 'Batch generator delivers every event exactly once and ends',
     'When files are not drawn forever, iterating the data handler\'s batch '
     'generator delivers every event of every readable input file exactly '
     '`num_repetitions` times and then ends, for any number of worker '
     'processes, queue capacities, number of added files and any relative '
     'speed of loaders and consumer. Every batch holds exactly `batch_size` '
     'events except the last one, which holds the remainder; with one worker '
     'and no shuffling the events come in file order. Files that do not '
     'exist or that the handler declines contribute nothing and neither '
     'block nor end the iteration early.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'all loader/consumer interleavings, worker counts, queue capacities, '
     'file sizes (including empty lists, missing files and declined files)',
     'The stable tests never start the multiprocessing pipeline; losing a '
     'batch or hanging needs a particular timing of loaders and consumer.',
     ['egenerator/data/handler/base.py'],
     [('worker / batching / iterator protocol',
       'BaseDataHandler.get_batch_generator')],
     ['batches yielded by get_batch_generator and get_tf_dataset'])

prop('D02', 'Batching keeps each event\'s rows together and unaltered',
     'In every delivered batch, row i of all per-event tensors and all '
     'pulse / time-exclusion rows labelled i belong to one and the same input '
     'event, with all its rows present, in their original order and with '
     'unaltered values. Event labels in a batch run from 0 to the number of '
     'events minus 1, and all tensors have the declared dtype and the '
     'declared trailing dimensions, in full and in partial batches, also for '
     'events without any pulses.',
     ['inputs', 'configurations'],
     'all event sizes (including zero pulses), batch sizes, shuffling modes, '
     'tensor layouts',
     'No stable test compares delivered batches with the input events.',
     ['egenerator/data/handler/base.py'],
     [('event splitting and renumbering', 'get_batch_generator / '
       'batch_to_event_structure')],
     ['batches yielded by get_batch_generator'])

prop('D03', 'Structure conversion and event selection preserve the data',
     'Splitting batch-structured vector data into a per-event list and '
     'joining it again reproduces the grouped data, with every row assigned '
     'to exactly one event. When files are read through the modular handler, '
     'exactly the events which pass the event filter are kept, in their '
     'original order, and every remaining per-event tensor and vector row '
     'still belongs to its event.',
     ['inputs', 'configurations'],
     'all index layouts, all masks (none, all, alternating, random events '
     'filtered), all tensor kinds',
     'The unit tests use one hand-written example without filtering vector '
     'tensors.',
     ['egenerator/data/handler/base.py', 'egenerator/data/handler/modular.py'],
     [('structure conversion', 'batch_to_event_structure, '
       'event_to_batch_structure'),
      ('mask application', 'ModuleDataHandler._get_data')],
     ['get_data_from_hdf, batch_to_event_structure, event_to_batch_structure'])

prop('D04', 'Pulse data in files is loaded without loss or corruption',
     'For every pulse file the loaded pulses are exactly the in-ice pulses of '
     'the file (charge, time, event, string, DOM), each DOM\'s charge equals '
     'the sum of its pulse charges in the file, the time window of an event '
     'spans the first and last pulse of the file, and the optional charge quantile of a pulse is '
     'its cumulative charge fraction at its DOM. Exactly the default bad DOMs '
     'and the DOMs listed for the event are marked as excluded; time '
     'exclusion windows are reproduced; with discarding switched on no pulse '
     'remains at an excluded DOM. No loaded value is uninitialised, whatever '
     'rows the file contains.',
     ['inputs', 'configurations'],
     'all pulse tables, exclusion tables (present, empty or missing), '
     'IceTop DOMs, settings',
     'The stable tests read no HDF file at all; the only file in the test '
     'data has no exclusions, no IceTop pulses and no empty events.',
     ['egenerator/data/modules/data/pulse_data.py'],
     [('HDF reader', 'PulseDataModule.get_data_from_hdf')],
     ['data returned by ModuleDataHandler.get_data_from_hdf'])

prop('D05', 'File and live-frame readers agree',
     'For one and the same event, the tensors obtained from an I3 frame and '
     'from an HDF file hold the same pulses, DOM charges, exclusions, time '
     'windows, labels and filter decision. This includes events without '
     'pulses, frames that lack the optional exclusion keys and all reader '
     'settings.',
     ['inputs', 'configurations'],
     'all events and settings supported by both readers',
     'icecube software is not available in the tests, so the frame readers '
     'are never executed.',
     ['egenerator/data/modules/data/pulse_data.py',
      'egenerator/data/modules/labels/cascades.py',
      'egenerator/data/modules/labels/snowstorm_cascades.py',
      'egenerator/data/modules/filters/general_filter.py',
      'egenerator/data/handler/base.py',
      'egenerator/data/handler/modular.py'],
     [('frame readers', 'get_data_from_frame of the modules')],
     ['get_data_from_hdf vs. get_data_from_frame on equal content'])

prop('D06', 'Label parameters are loaded by name with correct physics',
     'Each column of the loaded source parameters holds exactly the labelled '
     'quantity that its parameter name announces, event by event, including '
     'snowstorm nuisance parameters and additionally requested labels. The '
     'optional vertex shift moves the cascade along its direction by the '
     'energy-dependent distance to the shower maximum and moves the time by '
     'the corresponding light travel time, leaving everything else unchanged, '
     'and it never alters the input.',
     ['inputs', 'configurations'],
     'all label tables (directions, energies, times), label modules and '
     'settings',
     'The label modules are covered by no stable test.',
     ['egenerator/data/modules/labels/cascades.py',
      'egenerator/data/modules/labels/snowstorm_cascades.py',
      'egenerator/data/modules/labels/snowstorm_tracks.py',
      'egenerator/data/modules/labels/snowstorm_track_segment.py',
      'egenerator/data/modules/labels/muons.py'],
     [('label extraction', 'get_data_from_hdf of the label modules'),
      ('vertex shift', 'shift_to_maximum')],
     ['x_parameters tensor and parameter names of the label module'])

prop('D07', 'Reconstruction seeds are loaded by name, one tensor per seed',
     'For every configured seed, the loaded seed tensor holds, per event and '
     'in the configured parameter order, the value stored under that seed\'s '
     'name for that parameter, and the configured fill value for parameters '
     'the seed does not provide. This holds for any number of seeds in any '
     'order.',
     ['inputs', 'configurations'],
     'all seed tables, seed name lists, parameter lists, missing values',
     'The seed loader is not executed by the stable tests.',
     ['egenerator/data/modules/misc/seed_loader.py',
      'egenerator/data/handler/modular.py'],
     [('seed reader', 'SeedLoaderMiscModule.get_data_from_hdf / _frame')],
     ['seed tensors returned by get_data_from_hdf / get_data_from_frame'])

prop('D08', 'The event filter keeps exactly the events meeting all cuts',
     'An event passes the general filter if and only if it fulfils every '
     'configured constraint (key, column, comparison, threshold) with the '
     'comparison meaning what its name says. This holds for all comparisons, '
     'boundary values and numbers of constraints, identically for files and '
     'frames.',
     ['inputs', 'configurations'],
     'all constraint lists and value tables',
     'The filter module is not executed by the stable tests.',
     ['egenerator/data/modules/filters/general_filter.py'],
     [('constraint evaluation', 'GeneralFilterModule.get_event_filter_mask_*')],
     ['events kept by the handler'])

prop('D09', 'Frame readers honour the registered tensor contract',
     'Every tuple of tensors obtained from a frame has one entry per '
     'registered tensor in registration order, with rank, trailing '
     'dimensions and dtype as declared, and the TensorFlow conversion holds '
     'the same values; missing tensors are represented by scalars of the '
     'declared type.',
     ['inputs', 'configurations'],
     'all handler configurations and frames, including empty pulse maps',
     'Frames are never read in the stable tests.',
     ['egenerator/data/handler/base.py', 'egenerator/data/handler/modular.py'],
     [('frame readers', 'BaseDataHandler.get_data_from_frame, '
       'convert_data_to_tensor')],
     ['return values of get_data_from_frame / get_tensor_from_frame'])

# ----------------------------------------------------------------- trafo
prop('T01', 'Transformation statistics equal the statistics of the data',
     'The mean and standard deviation stored by the data transformer equal '
     'the two-pass mean and standard deviation of all events it was fed '
     '(after the partial logarithm the tensor asks for, over the event axis '
     'and the axes the tensor asks for, which are counted without the batch '
     'axis), independent of how the events were split into '
     'batches. Constant columns never produce a division by zero, and saving '
     'and loading reproduces the statistics exactly.',
     ['inputs', 'configurations', 'histories'],
     'all data sets and batch splits, reduce axes and logarithm settings',
     'The transformer tests are not part of the stable tests and compare two '
     'stored numbers.',
     ['egenerator/data/trafo.py'],
     [('online moments', 'DataTransformer._perform_update_step, '
       'create_trafo_model')],
     ['statistics after configure, after save and load'])

prop('T02', 'Transformation and its inverse are exact opposites',
     'Applying the transformation and its inverse in either order reproduces '
     'the input up to rounding, for every tensor, with or without the bias '
     'correction, and NumPy and TensorFlow inputs give the same result. The '
     'result has the input\'s shape and type, the input is not modified, and '
     'tensors that are not marked for transformation are refused.',
     ['inputs', 'configurations'],
     'all values in the domain of the declared logarithms, all tensor '
     'layouts and dtypes',
     'Only one numeric example is tested, and not in the stable set.',
     ['egenerator/data/trafo.py'],
     [('transform / inverse', 'DataTransformer.transform, '
       'inverse_transform')],
     ['return values of transform and inverse_transform'])

# ------------------------------------------------------------ components
prop('C01', 'Saving and loading a component tree is lossless',
     'A component (with all nested sub components) that is saved and loaded '
     'again has the same configuration, the same data, the same sub '
     'components and the same observable behaviour as the original, '
     'including a full model manager with models, data handler and loss '
     'module. A component saved under one directory and moved to another '
     'loads identically.',
     ['configurations', 'histories'],
     'all component trees, nesting depths, data payloads, save/load '
     'sequences',
     'Component tests need a missing dependency and are not in the stable '
     'set; they check single hand-written components.',
     ['egenerator/manager/component.py', 'egenerator/manager/base.py',
      'egenerator/model/base.py', 'egenerator/loss/default.py',
      'egenerator/loss/snowstorm.py'],
     [('save / load', 'BaseComponent.save, load')],
     ['public attributes and behaviour of the loaded component'])

prop('C02', 'Incompatible, unconfigured or overwriting use is refused',
     'Loading, saving, evaluating or replacing parts of a component is '
     'refused whenever it is not configured, already configured, would '
     'overwrite existing data without permission, would replace a sub '
     'component by one that is not compatible with the one it was built '
     'with, or was altered in a way not allowed; replacing by a compatible '
     'one is accepted, takes effect, and is recorded. A refused operation '
     'leaves the existing files and the objects passed in unchanged.',
     ['configurations', 'histories', 'fault_sequences'],
     'all orders of configure/save/load, all compatible and incompatible '
     'replacements',
     'Covered only by unit tests of single cases outside the stable set.',
     ['egenerator/manager/component.py'],
     [('guards', 'BaseComponent.configure/save/load, '
       'Configuration.is_compatible')],
     ['exceptions raised, files on disk, components after load'])

prop('C03', 'Model checkpoints survive saving, pruning and crashes',
     'Loading a model from its directory restores exactly the weights of the '
     'requested (by default latest) checkpoint, with all checkpoint metadata, '
     'and pruning keeps at least the newest `max_keep` and all protected '
     'checkpoints. A save that is interrupted at any file-system operation '
     'leaves a directory from which the previous or the new weights can be '
     'loaded.',
     ['histories', 'crash_points', 'configurations'],
     'all sequences of saves with protection and max_keep, every crash '
     'point within a save',
     'The tests in the stable set never save a model.',
     ['egenerator/model/base.py', 'egenerator/model/multi_source/base.py'],
     [('checkpoint bookkeeping', 'Model.save_weights, load_weights')],
     ['weights after load_weights, files in the model directory'])

prop('C04', 'Tensor lists keep names, order and properties consistently',
     'In every list of data tensors the lookups by name and index and the '
     'lists of names, shapes, types and existence agree with each other and '
     'with the tensors that were given, whatever their order; lists compare equal exactly if all tensors agree in all '
     'properties, and saving to and loading from a serialised form '
     'reproduces an equal list. Malformed tensor definitions are refused.',
     ['inputs', 'configurations'],
     'all combinations of tensor properties and list orders',
     'The stable tests sample a few hand-written tensors.',
     ['egenerator/data/tensor.py'],
     [('tensor definitions', 'DataTensor, DataTensorList')],
     ['public attributes and methods of DataTensor(List)'])

prop('C05', 'Merged configuration files mean what they say',
     'Merging configuration files yields every option exactly as given in '
     'the one file that defines it, defaults only for options that are not '
     'given, and every string (also in nested dictionaries, but not in '
     'lists) with its placeholders fully replaced by the resolved option '
     'values. Conflicting definitions are refused, and the result '
     'does not depend on the order of the options.',
     ['configurations'],
     'all sets of configuration files, nestings and placeholder references',
     'The stable tests load two small files.',
     ['egenerator/settings/setup_manager.py'],
     [('merge and expansion', 'SetupManager')],
     ['SetupManager.get_config()'])

# ---------------------------------------------------------------- models
prop('M01', 'Event hypotheses are evaluated independently of each other',
     'The expected charges, charge variances, pulse PDFs and the likelihood '
     'of an event do not depend on which other events share its batch, nor '
     'on the order of the events or of their pulses. Expected charges, '
     'variances and PDF values are finite and not negative for every source '
     'hypothesis.',
     ['inputs', 'configurations'],
     'all batches, permutations, pulse multiplicities, model configurations',
     'No stable test evaluates a model.',
     ['egenerator/model/source/base.py',
      'egenerator/model/source/cascade/default.py',
      'egenerator/model/source/cascade/systematic.py',
      'egenerator/model/source/cascade/charge_quantiles.py',
      'egenerator/model/source/track/stochastic_segment.py',
      'egenerator/model/source/noise/default.py',
      'egenerator/model/multi_source/base.py'],
     [('source evaluation', 'get_tensors of the models')],
     ['result tensors of get_tensors'])

prop('M02', 'Pulse time PDFs are normalised at every DOM',
     'For every hypothesis and DOM the time PDF seen by the likelihood '
     'integrates to one over time (measured in units of 1000 ns, common to '
     'all sources), outside the excluded time windows and '
     'after accounting for the reported excluded fraction. The reported '
     'excluded fraction of a DOM equals the integral of the unrestricted PDF '
     'over its (non-overlapping) exclusion windows, for any number of them. '
     'Every component of a mixture is renormalised by its own allowed '
     'fraction plus 0.001, so that fully excluded components vanish instead '
     'of diverging.',
     ['inputs', 'configurations'],
     'all hypotheses, DOMs, sets of exclusion windows, source models',
     'No stable test evaluates a model; normalisation is an integral over '
     'all times.',
     ['egenerator/model/source/cascade/default.py',
      'egenerator/model/source/cascade/systematic.py',
      'egenerator/model/source/track/stochastic_segment.py',
      'egenerator/model/source/noise/default.py',
      'egenerator/utils/basis_functions.py'],
     [('mixture PDF and exclusion correction', 'get_tensors')],
     ['pulse_pdf and dom_cdf_exclusion_sum integrated over a time grid'])

prop('M03', 'A multi-source hypothesis is the superposition of its sources',
     'For any combination of sources, the expected charge of a DOM and its '
     'variance are the sums over the sources evaluated on their own with '
     'their own parameters, and the pulse PDF and the excluded fraction are '
     'the averages over sources weighted by expected charge. Every source is '
     'evaluated by the base model it was configured with.',
     ['inputs', 'configurations'],
     'all numbers and kinds of sources, parameter values, shared or distinct '
     'base models, graph and eager execution',
     'No stable test evaluates a multi-source model.',
     ['egenerator/model/multi_source/base.py',
      'egenerator/model/multi_source/independent.py',
      'egenerator/model/multi_source/muon/default.py',
      'egenerator/model/multi_source/track/stochastic_track.py'],
     [('superposition', 'MultiSource.get_tensors')],
     ['result tensors of the multi source and of each base source'])

prop('M04', 'Detector noise is uniform in time and follows the DOM rates',
     'The noise model predicts per DOM the noise rate times the length of '
     'the event\'s time window (up to one trainable factor common to all '
     'DOMs) and a flat time PDF of one over the window length (in units of '
     '1000 ns as for all other sources), reduced and renormalised by the '
     'excluded time. It depends on nothing but the DOM and the time '
     'windows.',
     ['inputs', 'configurations'],
     'all time windows, exclusions and pulse lists',
     'No stable test evaluates the noise model.',
     ['egenerator/model/source/noise/default.py'],
     [('noise model', 'DefaultNoiseModel.get_tensors')],
     ['result tensors of the noise model'])

prop('M05', 'PDF, CDF and log forms of the basis functions are consistent',
     'For every basis function and admissible parameter the logarithmic form '
     'equals the logarithm of the PDF, the CDF is its integral, the PDF is '
     'normalised, and NumPy and TensorFlow versions agree. The quantile '
     'function inverts the CDF, and samplers draw from the PDF.',
     ['inputs'],
     'all admissible arguments and parameters, including extreme tails',
     'Only sampled by no stable test.',
     ['egenerator/utils/basis_functions.py'],
     [('basis functions', 'basis_functions')],
     ['return values of the functions'])

prop('M06', 'Parameters are addressed consistently by name and index',
     'For every source and multi-source model, looking up a parameter by '
     'name, index or attribute refers to the same column of the parameter '
     'tensor, in the order given by the configuration, and every source of a '
     'multi-source model receives exactly the columns of the parameters '
     'bearing its name. The '
     'manager\'s conversions between parameter order, subsets and '
     'transformed space use the same assignment.',
     ['configurations', 'inputs'],
     'all models and parameter subsets',
     'No stable test builds a model.',
     ['egenerator/model/source/base.py',
      'egenerator/model/multi_source/independent.py',
      'egenerator/manager/source.py'],
     [('name/index dictionaries', 'Source.get_index, get_name, '
       'add_parameter_indexing')],
     ['get_index, get_name, parameters.params, get_source_parameters'])

prop('M07', 'Light emission only depends on times relative to the source',
     'Shifting the time of a cascade or track segment together with all '
     'pulse times, time windows and exclusion windows leaves expected '
     'charges and pulse PDFs unchanged. Expected charges do not depend on '
     'the measured pulses: adding or removing pulses changes no expected '
     'charge, and excluding DOMs does not change the expected charges of '
     'other DOMs.',
     ['inputs', 'configurations'],
     'all hypotheses, shifts, pulse sets',
     'No stable test evaluates a model.',
     ['egenerator/model/source/cascade/default.py',
      'egenerator/model/source/cascade/systematic.py',
      'egenerator/model/source/track/stochastic_segment.py'],
     [('geometry and time offsets', 'get_tensors')],
     ['result tensors before and after the shift'])

# ------------------------------------------------------------------ loss
prop('L01', 'Likelihood totals are the sums of their event and DOM parts',
     'For every loss function the reduced loss equals the sum of its '
     'per-event and per-DOM parts, the loss of a batch is the sum of its '
     'events\' losses, and a combined loss is the sum of its members. '
     'Excluded DOMs do not contribute to the loss (pulses at them are removed '
     'beforehand).',
     ['inputs', 'configurations'],
     'all loss functions, reductions, batches, DOM exclusions and settings',
     'No stable test evaluates a loss.',
     ['egenerator/loss/default.py', 'egenerator/loss/multi_loss.py',
      'egenerator/loss/snowstorm.py'],
     [('reductions', 'get_loss of the loss modules')],
     ['scalar loss, event loss, DOM tensor'])

prop('L02', 'Loss functions are the documented negative log likelihoods',
     'Each loss function equals the negative logarithm of its documented '
     'probability model (unbinned extended pulse likelihood, time PDF, '
     'Poisson, Gaussian or negative binomial charge model) evaluated '
     'independently from the model predictions, including the normalisation '
     'terms when requested and the time exclusions. Switching the '
     'normalisation term on or off shifts the loss only by a quantity that '
     'does not depend on the hypothesis.',
     ['inputs', 'configurations'],
     'all loss functions, predictions, charges (including zero), exclusions',
     'No stable test evaluates a loss.',
     ['egenerator/loss/default.py'],
     [('loss functions', 'DefaultLossModule')],
     ['loss values vs. an independent NumPy/SciPy implementation'])

prop('L03', 'Snowstorm priors penalise exactly the configured parameters',
     'The snowstorm loss equals the sum of the Gaussian (or uniform) priors '
     'of exactly the configured nuisance parameters with the configured '
     'widths and ranges, and nothing else. It is minimal at the nominal '
     'values, zero inside and growing outside of a uniform range, independent '
     'of all other parameters, and unchanged by saving and loading.',
     ['inputs', 'configurations'],
     'all parameter values, sigma lists, uniform ranges, reductions',
     'No stable test evaluates the snowstorm loss.',
     ['egenerator/loss/snowstorm.py'],
     [('priors', 'SnowstormPriorLossModule')],
     ['loss values'])

# -------------------------------------------------------- reconstruction
prop('R01', 'A fit only moves the fitted parameters and never gets worse',
     'Every reconstruction returns a result in which parameters that are not '
     'fitted keep their seed value, fitted parameters respect their bounds, '
     'and the reported loss is the likelihood of the reported result and is '
     'not larger than the likelihood of the seed. This holds for any choice '
     'of fitted parameters, in transformed and untransformed space, for '
     'every supported minimiser.',
     ['inputs', 'configurations'],
     'all events, seeds, parameter selections, minimisers, spaces',
     'No stable test reconstructs an event.',
     ['egenerator/manager/source.py',
      'egenerator/manager/reconstruction/modules/reconstruction.py'],
     [('fit parameter handling', 'SourceManager.reconstruct_events, '
       'get_reconstruction_tensors')],
     ['reconstruction results'])

prop('R02', 'Gradients, Hessians and covariances match the likelihood',
     'The gradient, Hessian and per-event gradient products that the manager '
     'provides equal the numerical derivatives of the likelihood it reports '
     'in the same (transformed or original) space for the selected '
     'parameters. The reported covariance matrices are the corresponding '
     'matrix inverses, placed at the selected parameters and converted '
     'consistently between transformed and original space.',
     ['inputs', 'configurations'],
     'all hypotheses, parameter selections, spaces',
     'No stable test computes a derivative.',
     ['egenerator/manager/source.py',
      'egenerator/manager/reconstruction/modules/covariance.py',
      'egenerator/data/trafo.py'],
     [('derivatives', 'get_loss_and_gradients_function, '
       'get_hessian_function, get_opg_estimate_function'),
      ('covariances', 'CovarianceMatrix module')],
     ['return values'])

prop('R03', 'The best reconstruction is the one with the smallest loss',
     'Selecting among several reconstructions returns the complete result of '
     'the one with the smallest loss, independent of the order in which they '
     'are listed.',
     ['inputs', 'configurations'],
     'all numbers, orders and loss values of reconstructions',
     'No stable test runs the selection.',
     ['egenerator/manager/reconstruction/modules/reconstruction.py'],
     [('selection', 'SelectBestReconstruction')],
     ['result of the selection module'])

prop('R04', 'Spherical minimisation stays near the best direction found',
     'The spherical optimiser returns the best of all directions it '
     'evaluated together with its function value, proposes only valid '
     'directions, and converges to the minimum of a smooth function on the '
     'sphere also across the poles and the azimuth wrap-around.',
     ['inputs'],
     'all smooth objective functions, seeds and start points',
     'Not touched by any test.',
     ['egenerator/utils/spherical_opt.py'],
     [('optimiser', 'spherical_opt')],
     ['returned direction and value, evaluated points'])

prop('R05', 'Angular geometry helpers agree with vector geometry',
     'Angular distances, rotations and conversions between angles and '
     'vectors agree with the corresponding three-dimensional vector '
     'geometry for all directions including poles and antipodes, are '
     'symmetric and periodic where they should be, and invert each other.',
     ['inputs'],
     'all directions and opening angles',
     'Not touched by any test.',
     ['egenerator/utils/angles.py'],
     [('angle helpers', 'angles')],
     ['return values'])

prop('R06', 'Simulated pulses follow the predicted charges and times',
     'Events simulated from source hypotheses (frames with a particle tree, '
     'or the events the goodness-of-fit module draws) contain at every DOM '
     'a number of pulses that follows the charge distribution predicted by '
     'the model for the sum of the sources, at times that follow the '
     'predicted time PDF shifted to the time of the source. Pulses are '
     'positive, sorted in time, carry the label of their DOM, and their '
     'charges add up to the charge of the DOM given to the loss. Exactly '
     'the light sources above the energy threshold and within the maximum '
     'distance contribute, with the parameters of the particle tree and the '
     'configured default values; frames without light sources get an empty '
     'pulse series and particles that can not be simulated are refused. The '
     'same seed gives the same pulses.',
     ['inputs', 'configurations'],
     'all particle trees, hypotheses, default values and seeds',
     'Sampling is not touched by any test, and a wrong distribution is only '
     'visible in the statistics of many events.',
     ['egenerator/ic3/simulation.py',
      'egenerator/manager/reconstruction/modules/fit_quality.py',
      'egenerator/utils/basis_functions.py',
      'egenerator/manager/source.py'],
     [('simulation of frames', 'EventGeneratorSimulation.DAQ, '
       'get_light_sources, convert_cascades_to_tensor, sample_pulses'),
      ('simulation of test events', 'GoodnessOfFit.sample_num_pe, '
       'sample_event_pulses')],
     ['simulated pulses'])

prop('R07', 'Reconstruction trays run modules in order on the right inputs',
     'A reconstruction tray executes its modules in the order added, gives '
     'each module exactly the results of the modules it names, reports one '
     'result and run time per module name, and refuses duplicate names. '
     'Functions built once are reused only for identical settings.',
     ['histories', 'configurations'],
     'all module chains, names and cache histories',
     'Not touched by any test.',
     ['egenerator/manager/reconstruction/tray.py',
      'egenerator/manager/reconstruction/modules/utils/*.py',
      'egenerator/manager/source.py'],
     [('tray', 'ReconstructionTray'), ('function cache', 'FunctionCache')],
     ['results of the tray'])

prop('R08', 'MCMC samples follow the likelihood in the original space',
     'The Markov chain returns samples of the selected parameters in '
     'original units whose reported likelihood values belong to the '
     'reported samples and which are distributed as the posterior, '
     'starting from the given result.',
     ['inputs', 'configurations'],
     'all likelihoods, seeds, parameter selections and spaces',
     'Not touched by any test.',
     ['egenerator/manager/reconstruction/modules/mcmc.py',
      'egenerator/manager/source.py'],
     [('chain', 'MarkovChainMonteCarlo, run_mcmc')],
     ['samples and log probabilities'])

prop('R09', 'Model ensembles combine their members as documented',
     'A manager with several models evaluates the sum of the member '
     'likelihoods (or applies the documented combination) with every member '
     'using its own weights, and loading an ensemble applies requested '
     'modifications to every member.',
     ['configurations', 'inputs'],
     'all ensemble sizes and modifications',
     'Not touched by any test.',
     ['egenerator/manager/source.py', 'egenerator/manager/base.py',
      'egenerator/utils/configurator.py'],
     [('ensemble evaluation', 'SourceManager / BaseModelManager'),
      ('configurator', 'ManagerConfigurator')],
     ['likelihood of the ensemble, loaded members'])

prop('R10', 'Angular uncertainties and goodness-of-fit values describe the '
     'likelihood',
     'The circularized angular uncertainty samples directions exactly at '
     'the reported opening angles around the best fit, reports as '
     'difference the likelihood minimised over all other parameters at that '
     'direction minus the one of the best fit, and returns the positive '
     'Rayleigh sigma that best matches the chi2 probabilities of these '
     'differences, whatever the size of the uncertainty. The goodness-of-fit '
     'module draws hypotheses from the posterior (or uses the best fit), '
     'simulates and optionally reconstructs every one, and its p-values of '
     'the event and of every DOM are the fractions of simulated events with '
     'a loss at least that of the data; reported loss statistics, bias and '
     'covariance are those of the samples, for any subset of fitted '
     'parameters. The same seed gives the same results.',
     ['inputs', 'configurations'],
     'all likelihoods, posteriors, fitted parameters and options',
     'Neither module is touched by any test; their numbers can not be judged '
     'without an independent evaluation of the likelihood.',
     ['egenerator/manager/reconstruction/modules/opening_angle.py',
      'egenerator/manager/reconstruction/modules/fit_quality.py',
      'egenerator/manager/reconstruction/modules/utils/trafo.py',
      'egenerator/utils/angles.py'],
     [('angular uncertainty', 'CircularizedAngularUncertainty.execute, '
       'get_circularized_estimate'),
      ('goodness of fit', 'GoodnessOfFit.execute, compute_p_value')],
     ['opening angles, losses, uncertainty, p-values'])

# -------------------------------------------------------------- training
prop('N01', 'Learning-rate schedules switch where configured',
     'The combined learning-rate schedule returns, at every step, the rate '
     'of the schedule responsible for that step, counted from the start of '
     'its interval, for any number of boundaries and schedules. Its '
     'configuration reproduces an identical schedule.',
     ['inputs', 'configurations'],
     'all steps, boundaries and schedules',
     'Not touched by any stable test.',
     ['egenerator/utils/learning_rate.py'],
     [('schedule', 'MultiLearningRateScheduler')],
     ['rate at each step'])

prop('N02', 'A training step moves the weights down the reported loss',
     'Every training step changes exactly the trainable weights by one '
     'optimiser step along the (clipped, regularised) gradient of the '
     'reported loss and counts one step, and the training loop performs the '
     'configured number of steps, saves at the configured frequency and can '
     'be resumed with the number of completed steps preserved.',
     ['histories', 'configurations', 'inputs'],
     'all batches, clipping and regularisation settings, resume points',
     'Not touched by any stable test.',
     ['egenerator/manager/base.py', 'egenerator/manager/source.py'],
     [('training step', 'BaseModelManager.get_concrete_function, '
       'perform_training_step, train')],
     ['weights, loss, step counters, checkpoints'])

# -------------------------------------------------------------- programs
prop('P01', 'Programs resume, export and reconstruct exactly what they are told',
     'Creating the transformation, training, exporting and reconstructing '
     'test data from configuration files leave exactly the documented files: '
     'existing results are only replaced after confirmation, a resumed '
     'training starts from the stored weights and keeps all records, '
     'exports hold the weights and settings of the given models, and every '
     'test event (or frame) gets one result, in order, whose losses belong '
     'to the reported parameters and are no worse than those of the seeds.',
     ['histories', 'configurations', 'inputs'],
     'all sequences of programs, answers, models and settings',
     'No test runs a program.',
     ['egenerator/create_trafo_model.py', 'egenerator/train_model.py',
      'egenerator/export_manager.py', 'egenerator/reconstruct_test_data.py',
      'egenerator/utils/build_components.py',
      'egenerator/ic3/reconstruction.py', 'egenerator/manager/source.py'],
     [('programs', 'main functions, build_manager'),
      ('results', 'SourceManager.reconstruct_testdata, '
       'EventGeneratorReconstruction')],
     ['directories, weights, training records, tables, frames'])

out = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
for p in P:
    assert len(p['title']) <= 80, p['id']
