"""technique / level notes per property (used by make_manifest.py)."""
HOOKS = None
NOT_APPLICABLE = {}
MON = 'runtime monitoring: '
TECH = {
    'D01': (MON + 'exactly-once / termination checker over recorded batch '
            'histories of the real multiprocessing generator under injected '
            'delays, SIGSTOP/SIGCONT and file faults',
            'held on the recorded schedules; hangs decided by absence of any '
            'logged progress'),
    'D02': (MON + 'trace checker comparing every delivered batch row with the '
            'uniquely tagged events that were fed in',
            'held on the executed layouts, batch sizes and event sizes'),
    'D04': (MON + 'row-by-row oracle over data read from generated HDF files '
            'with poisoned memory (uninitialised-read detector)',
            'held on the generated files and reader settings'),
    'D03': (MON + 'conservation checker over uniquely tagged rows before and '
            'after structure conversion and event filtering',
            'held on the executed layouts and masks'),
    'D05': (MON + 'differential monitor: the same generated event is read '
            'from an HDF file and from a live frame stand-in',
            'held on the generated events; icecube is replaced by stubs with '
            'the same container interface'),
    'D06': (MON + 'oracle recomputing every label column by parameter name '
            'and the shower-maximum shift independently in plain Python',
            'held on the generated label tables'),
    'D07': (MON + 'oracle comparing every loaded seed value with the '
            'uniquely tagged value stored under that seed and parameter',
            'held on the generated seed tables'),
    'D08': (MON + 'decision oracle: every keep/drop decision of the real '
            'filter is compared with a direct evaluation of the cuts',
            'held on the generated constraint lists, boundary values '
            'included'),
    'D09': (MON + 'contract monitor on every tuple returned by the frame '
            'readers (order, rank, dtype, shape, TensorFlow twin)',
            'held on the generated frames and handler configurations'),
    'T01': (MON + 'two-pass statistics oracle over everything the '
            'transformer was fed, several batch splits of one data set',
            'held on the generated data sets; tolerance of the declared '
            'precision'),
    'T02': (MON + 'round-trip and NumPy/eager/graph differential monitor '
            'with an input-mutation watch',
            'held on the generated values; tolerance of the declared '
            'precision'),
    'C01': (MON + 'differential monitor: every component is compared with '
            'its loaded, moved and re-saved copies (configuration, data and '
            'all computed outputs)',
            'held on the generated component trees and the executed '
            'component kinds'),
    'C02': (MON + 'reference state machine and independent compatibility '
            'rule decide every accept/refuse; file digests and object '
            'pictures watch for side effects of refused operations',
            'held on the generated trees, replacements and life-cycle '
            'histories'),
    'C03': (MON + 'reference list of checkpoints over random save/load '
            'histories; an audit hook records the directory at every '
            'file-system operation of a save (plus torn writes) and every '
            'recorded crash state is loaded by a fresh object',
            'held on the executed histories and all their recorded crash '
            'states'),
    'C04': (MON + 'lookups, comparisons and serialised copies of real tensor '
            'lists are compared with plain definitions',
            'held on the generated definitions'),
    'C05': (MON + 'oracle resolving the placeholder references '
            'independently of file and option order',
            'held on the generated sets of configuration files'),
    'M01': (MON + 'metamorphic oracle: result tensors and likelihood of the '
            'same events in different batches, permutations, alone, eager '
            'and graph are compared event by event; special hypotheses '
            'are watched for values which are not finite or negative',
            'held on the executed hypotheses and arrangements'),
    'M02': (MON + 'quadrature oracle: the real models are evaluated with pulses '
            'on dense time grids; integrals over time, over the exclusion '
            'windows and the shape are compared with an independent '
            'asymmetric Gaussian mixture',
            'held on the executed hypotheses, DOMs and window sets; '
            'accuracy of the quadrature about 0.5 %'),
    'M03': (MON + 'superposition oracle: every base model is evaluated on its '
            'own with parameters derived by name, and sums and charge- '
            'weighted averages are recomputed in double precision',
            'held on the executed source combinations, eagerly and as '
            'graphs'),
    'M04': (MON + 'oracle recomputing charges, exclusions, variance and PDF DOM '
            'by DOM from the detector rates; metamorphic variation of '
            'everything that must not matter',
            'held on the executed time windows, exclusions and pulses'),
    'M05': (MON + 'value oracle: scipy and log-space formulas, sums, '
            'quadrature, inversion and chi-square tests decide every '
            'function in NumPy and TensorFlow, single and double '
            'precision',
            'held on the executed arguments; sampling decided at the 1e-7 '
            'level'),
    'M06': (MON + 'look-up oracle on tagged parameter tensors; the parameters '
            'handed to the models and the assembled fit results are '
            'recorded and compared column by column with the configured '
            'names',
            'held on the executed configurations and subsets'),
    'M07': (MON + 'metamorphic monitor: the same events before and after time '
            'shifts and variations of pulses, charges and exclusions',
            'held on the executed hypotheses and variations'),
    'L01': (MON + 'value oracle: every likelihood of the module is recomputed '
            'in double precision from the documented formula over the '
            'unmasked pulses and DOMs, with random result tensors, '
            'exclusions, quantiles and settings',
            'held on the executed likelihoods, predictions and windows'),
    'L02': (MON + 'metamorphic monitor: scalar, per-event, per-DOM and per- '
            'pulse forms of the same likelihood are compared for random '
            'batches, permutations and masks; excluded regions are '
            'perturbed and watched for influence',
            'held on the executed likelihoods and batches'),
    'L03': (MON + 'value oracle: the systematic penalty is recomputed by name '
            'from the configured widths, ranges and Fourier modes, '
            'including loaded and combined modules',
            'held on the generated parameter lists'),
    'R04': (MON + 'trace monitor: every evaluation the minimiser makes is '
            'recorded; the returned point and value, counters, spreads '
            'and stopping reason are decided on that history, with '
            'convergence on objectives of known minimum and the direction '
            'helpers against vector geometry',
            'held on the executed objectives, starts and settings'),
    'R05': (MON + 'value oracle: angles, distances and hypothesis grids the '
            'code returns compared with 3-D vector geometry, poles and '
            'seams included',
            'held on the executed directions and grids'),
    'R01': (MON + 'real reconstruction modules with every interface and '
            'minimiser run on likelihoods of known closed form; '
            'hypotheses, fixed parameters, reported losses, bounds and '
            'minima are decided in double precision, and inputs are '
            'compared before and after',
            'held on the executed minimisers, parameter selections, '
            'spaces, seeds and bounds'),
    'R02': (MON + 'value oracle: gradients, Hessians and covariance matrices '
            'the code returns compared with closed forms of likelihoods '
            'run through the real manager',
            'held on the executed likelihoods, selections and spaces'),
    'R03': (MON + 'online monitor of the reconstruction tray: selections are '
            'compared with all candidate results handed over, per event',
            'held on the executed candidates, ties and orders'),
    'R07': (MON + 'trace monitor: probe modules record calls, batches and '
            'results handed over in random chains; function caches run '
            'against a model; output files of test-data reconstructions '
            'are decided row by row',
            'held on the executed chains, cache histories and test data'),
    'R08': (MON + 'every sample the real chains report is re-evaluated in '
            'double precision, first samples are located relative to the '
            'given result, and moments of converged chains are compared '
            'with the analytic posterior',
            'held on the executed chains; moments are statistical and '
            'only decided where the scatter of the chains shows '
            'convergence'),
    'N01': (MON + 'online oracle: every rate of random combined schedules '
            '(eager, graphs, variables, real optimiser) against a closed '
            'form',
            'boundaries strictly increasing whole numbers'),
    'N02': (MON + 'trace monitor of the real training loop: every change of the '
            'weights matched against an independent optimiser on closed- '
            'form gradients, checkpoints and counters observed after '
            'every step',
            'keras optimisers trusted'),
    'R09': (MON + 'runtime monitoring: online comparison of ensemble losses, '
            'gradients, Hessians and result tensors with closed forms and '
            'single members while members are changed, saved and '
            'restored; refusal monitors for incompatible members; '
            'combined managers from moved export directories compared '
            'with the modules asked for',
            'random ensembles of 1-12 members (analytic and real models), '
            'histories of weight changes and checkpoints, random '
            'configurator updates'),
    'P01': (MON + 'runtime monitoring of the real programs: digests of every '
            'directory before and after each program, weights, training '
            'records, exports and result tables compared with independent '
            'evaluations, over random histories of programs, answers and '
            'settings',
            'small random projects (3-16 events, 1-2 trained members), '
            'in-process programs, tray module with stand-ins of the '
            'icecube containers'),
    'R06': (MON + 'frames with random particle trees are simulated many times '
            'with real models; counts and probability-integral- '
            'transformed times are compared with the predicted '
            'distributions, a monitor decides sources, labels, order and '
            'charges of every event',
            'statistical decisions at 6 to 8 standard deviations; models '
            'of random weights'),
    'R10': (MON + 'the real modules run on analytic likelihoods; recorded '
            'minimisations, simulated events and evaluations are '
            'recomputed in double precision, including p-values and the '
            'profile likelihood',
            'degrees of freedom as in the code (number of parameters '
            'minus two)'),
}
