"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
B='causal_effect_bandits/bandits.py'; A='causal_effect_bandits/arms.py'; D='causal_effect_bandits/data.py'
P='causal_effect_bandits/parameters.py'; S='causal_effect_bandits/scm.py'; X='causal_effect_bandits/example_scm.py'
N='causal_effect_bandits/nonlinear_utils.py'; U='causal_effect_bandits/paper_utils.py'; L='causal_effect_bandits/plotting_utils.py'
R=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
  R.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
    anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

RUN='return value of run(), and the updates that the arms and the data source receive during it'
prop('C01','A run that ends before its sample limit returns an (epsilon, delta)-correct arm',
 'When any of the three bandit algorithms ends without having exceeded its sample limit, it returns exactly one arm. On the event that every confidence interval reported during the run contains its arm\'s true variance, the cost-adjusted true variance of that arm exceeds that of every other arm by at most error_tol (by nothing for successive elimination, which does not use error_tol).',
 ['histories','inputs','configurations'],'all sequences of confidence intervals and estimates that the arms report, all costs, tolerances, numbers of arms (at least two), and all three algorithms',
 'Tests run each algorithm on a few fixed streams of numbers and look at the winner; the guarantee quantifies over every history of intervals consistent with the truth.',
 [B],[('_check_fixed_conf_end_condition',B),('elimination in SuccessiveEliminationAlgorithm.run',B)],[RUN])
prop('C02','A run stops at the first round at which it is allowed to, and not before',
 'Uniform and LUCB stop at the end of the first round (for LUCB, after the initial round that samples every arm) in which the upper bound of the arm with the lowest cost-adjusted estimate is below the lower bound of every other arm plus error_tol and all upper bounds are finite; successive elimination stops at the end of the round in which one candidate is left. Every algorithm also stops at the end of the first round whose cumulative number of samples is strictly larger than sample_limit, where None means no limit. A run stops in no other round.',
 ['histories','inputs','configurations'],'all histories of reported intervals, and all limits, tolerances, costs and numbers of arms',
 'Tests check that runs end, on a handful of streams; stopping late or early, at exact equality with the limit, or with an infinite bound is not asserted.',
 [B],[('main loops of the run methods',B),('_check_fixed_conf_end_condition',B)],[RUN])
prop('C03','The answer consists of the eligible arms with the lowest cost-adjusted estimate',
 'A run that exceeded its sample limit without another reason to stop returns exactly the arms, each once, whose current cost-adjusted variance estimate is the lowest among the eligible arms: all arms for Uniform and LUCB, the arms that have not been eliminated for successive elimination. A run of Uniform or LUCB that stops by its confidence bounds returns one of the arms with the lowest estimate, and successive elimination returns the remaining candidate.',
 ['histories','inputs','configurations'],'all histories of estimates including ties and infinite estimates, all costs, limits and numbers of arms',
 'Tests contain one budget-limited run per algorithm with a unique, never eliminated, unit-cost winner.',
 [B],[('budget branches of the run methods',B)],[RUN])
prop('C04','Successive elimination eliminates soundly and for good',
 'After each round successive elimination drops exactly the candidates whose cost-adjusted lower bound is not below the lowest upper bound among the candidates with the lowest estimate; the arm that this upper bound belongs to is never dropped, so that the candidate set is never empty. An arm that has been dropped is never sampled again and never returned, and all remaining candidates are sampled exactly once in each round.',
 ['histories','inputs','configurations'],'all histories of intervals (ties, zero-width and infinite intervals included), costs, and numbers of arms',
 'Tests follow one elimination order of fixed intervals.',
 [B],[('SuccessiveEliminationAlgorithm.run',B)],[RUN])
prop('C05','Each round samples the arms that the algorithm prescribes',
 'Uniform samples every arm exactly once per round. LUCB samples every arm exactly once in its first round, and then in each round two distinct arms: one with the highest upper bound among the arms with the lowest cost-adjusted estimate, and one with the lowest lower bound among all other arms (any two distinct arms when all estimates are equal).',
 ['histories','inputs','configurations','schedules'],'all histories of intervals and estimates including ties and infinities, all costs, numbers of arms and random tie-breaks',
 'Tests assert the number of pulls on one stream; ties, costs and more than a few arms are not reached.',
 [B],[('LUCBAlgorithm.select_arms',B),('UniformAlgorithm.run',B)],[RUN])
prop('C06','Sample accounting is exact',
 'For every round, the reported samples of an arm equal the number of units that the arm was given in that round (units_per_round or 0), and the reported cumulative number of samples equals the sum over all arms and all rounds so far. Every history that a run returns has one entry per round and an entry for every arm.',
 ['histories','inputs','configurations'],'all runs, algorithms, round sizes, allocation patterns and stopping reasons',
 'Tests compare totals for one configuration per algorithm.',
 [B],[('samples_by_arm and cum_samples in the run methods',B)],[RUN])
prop('C07','Reported histories are the cost-adjusted values that the arms published',
 'After every round the returned histories hold, for every arm, cost times the lower bound, upper bound and variance estimate which that arm published at the end of that round, also for arms that were not sampled in the round or that have been eliminated.',
 ['histories','inputs','configurations'],'all runs, arms, costs and rounds',
 'Tests read the last entries of runs with unit costs.',
 [B],[('lcb_by_arm, ucb_by_arm and var_est_by_arm in the run methods',B)],[RUN])
prop('C08','The error probability is shared equally by all arms in every update',
 'Every update that a bandit algorithm makes to an arm asks for an interval with error probability equal to error_prob divided by the total number of arms, in every round and no matter how many arms are still sampled.',
 ['histories','inputs','configurations'],'all rounds, algorithms, numbers of arms and error probabilities',
 'No test looks at the delta that the arms receive.',
 [B],[('arm.update(..., error_prob / len(arms)) in the run methods',B)],['the error probability that an arm receives with each update'])
prop('C09','Arms are fed the right units',
 'When a run is given a dataset, the updates of each arm read consecutive blocks of units_per_round units from the beginning of the dataset, independently of what the other arms read, and the dataset is not modified. Without a dataset every update passes units_per_round units that were generated by the probability model and that this arm has not been given before.',
 ['histories','schedules','inputs'],'all allocation patterns, algorithms, datasets (that are long enough) and round sizes',
 'Tests use the dataset mode with one allocation pattern, and never compare which units reach an arm.',
 [B,A],[('stable_order branches of the run methods',B),('get_num_units',A)],['the batches passed to the arms'])
prop('C10','reset restores the just-constructed state',
 'After reset, arms, nuisance parameters and bandit algorithms behave exactly as newly constructed ones, whatever they were used for before: the same inputs and random seed give the same readiness, intervals, estimates, histories and answers.',
 ['histories'],'all histories of operations before the reset, and all sequences of operations after it',
 'Only one reset per algorithm is exercised by the tests, between two runs whose winner is compared.',
 [B,A,P],[('BAIBanditAlgorithm.reset',B),('VarianceEstimatorArm.reset',A),('reset of the nuisance parameters',P)],['public state and return values after reset compared with those of a new object'])
prop('C11','Invalid requests are rejected without effect, valid ones are accepted',
 'Out-of-range error probabilities, confidences, tolerances, fold counts and proportions, incompatible dimensions and lengths of data, structurally invalid causal models, and runs without any way to end are rejected with ValueError, and a rejected request leaves the object and its arguments as they were (an arm that rejects an error probability keeps its data and interval). Requests within the documented ranges are accepted.',
 ['inputs','configurations','fault_sequences'],'all argument values around and beyond the documented ranges, in every state of the object',
 'Tests assert almost no rejection, and none checks the state that is left behind.',
 [B,A,D,P,S],[('argument checks of constructors and methods',B+' '+A+' '+D+' '+P+' '+S)],['exceptions, and the observable state before and after them'])
prop('C12','Sample splitting: units are conserved, and folds never mix',
 'At every moment an arm holds every unit that it was given since its construction or reset exactly once, with covariates transformed and exposure and response intact, and reports their number. They are divided into a training fold, which is all that the nuisance parameter is fitted on, and a held-out fold, which is all that the estimates are computed on; each batch (with stable splits; otherwise all data) is divided in halves that differ by at most one unit, and with stable splits no unit ever changes sides.',
 ['histories','schedules','inputs'],'all sequences of batches of all sizes, all random splits, both arm classes and both splitting modes',
 'Tests only look at the final interval of arms fed with random data.',
 [A,D],[('update of SampleSplittingArm and BootstrapArm',A),('ExpData.k_fold and append',D)],['units seen by the nuisance parameter in fit and calculate_score; get_num_units'])
prop('C13','Arm estimates are held-out score moments; intervals are well-formed',
 'After every update the effect estimate of an arm is the mean, and its variance estimate the population variance, of the current scores (those of the nuisance parameter fitted on the current training fold) of all held-out units, and 0 <= lower bound <= variance estimate <= upper bound (for the sample-splitting arm with at least two held-out units, and error probabilities up to 1/2). While the nuisance parameter is not ready the interval is [0, inf) with an infinite variance estimate and without an effect estimate (also when it was ready before), and with the finite-sample method it is [0, inf) as long as fewer than burn_in units are held out.',
 ['histories','inputs','configurations'],'all score values, batch sequences, readiness patterns, interval methods and parameters',
 'Tests check that the final interval contains the true variance on a few random runs.',
 [A],[('update of SampleSplittingArm and BootstrapArm',A)],['ate, var_est and ci after every update'])
prop('C14','Confidence intervals have the level and form of their method',
 'The CLT interval after the k-th update has half-width z(1 - delta/(2k^2)) * sqrt(Var((score-mean)^2)/n), truncated at 0 from below; the chi-squared interval is var*(n-1)/q(1-delta/2), var*(n-1)/q(delta/2); the finite-sample half-width follows the formula of Section 3.5 of the paper with the nuisance width at level delta/2 entering squared. The bootstrap interval has the delta/2 and 1-delta/2 percentiles of the requested number (ceil(4/delta) by default) of variances of scores on resampled splits of the training fold only.',
 ['inputs','histories','configurations'],'all score sequences, fold sizes, update counts, error probabilities and interval parameters',
 'A coverage test on a few seeds cannot see a wrong level, a missing union bound or a wrong constant in a conservative interval.',
 [A],[('interval branches of SampleSplittingArm.update',A),('BootstrapArm.update',A)],['ci after every update'])
prop('C15','Experimental data keeps its rows intact',
 'Appending, folding, subsampling and slicing keep the covariates, exposure and response of each unit together, and neither lose, duplicate nor invent units: append concatenates in order and copies what it appends, the folds and the two subsamples are partitions of the units (folds have sizes that differ by at most one, and the first subsample has about the requested proportion of the units), and a slice is exactly the selected units. Units, features and length are always consistent, columns that are absent stay absent, and no operation changes the data it reads from or the other results of the operation.',
 ['histories','inputs','schedules'],'all sequences of operations on data of all sizes and dimensions, with and without exposure and response, and all random outcomes',
 'One test folds one dataset and checks the sizes.',
 [D],[('ExpData',D)],['cov, exp, rsp, n_units, n_features, len of the data objects'])
prop('C16','Covariate transformers select exactly the requested columns',
 'The identity, remove-coordinate and coordinate-mask transformers return, for every dataset, the same units in the same order with exactly the requested covariate columns in the requested order, with exposure and response untouched and with a consistent number of features, and leave their input unmodified.',
 ['inputs'],'all datasets, dimensions and index lists',
 'Transformers are not tested directly.',
 [D],[('get_identity_fn, get_remove_coordinates_fn, get_coordinate_mask_fn',D)],['the transformed data'])
prop('C17','A fitted table is a conditional distribution of the latest data',
 'After fit, for every observed x the probabilities of the observed z values are at least 1/(support size * max(1, min_ratio_to_uniform)) and sum to one, equal the observed conditional frequencies when none of these is below that floor, and otherwise preserve their order; values that were not observed in the latest fit have probability 0, and the marginal of x has the observed frequencies. The table depends on nothing but the latest data, and queries do not change it.',
 ['inputs','histories'],'all finite-support datasets, all floors, and all sequences of fits and queries',
 'One test fits one large random dataset, whose frequencies never reach the floor.',
 [D],[('TabularCPD',D)],['predict, z_support, x_support, support_size, x_marginal'])
prop('C18','Nuisance parameters are ready exactly after a sufficient fit, and use the latest',
 'A nuisance parameter reports enough samples if and only if, since construction or reset, it was fitted at least once on data with enough units in both treatment groups (at least min_units each for the AIPW and front-door parameters, at least one each for the two-model linear parameter, at least one unit for linear regression); before that its scores are nan (or undefined for linear regression). An insufficient fit changes nothing in the predictions, and after a sufficient fit the scores depend on that latest sufficient data only.',
 ['histories','inputs'],'all sequences of sufficient and insufficient fits, resets and queries, and all group sizes around the threshold',
 'Tests fit each parameter once, with plenty of data.',
 [P],[('fit, has_enough_samples, transform and reset of the nuisance parameters',P)],['has_enough_samples, calculate_score, transform'])
prop('C19','AIPW scores are the doubly robust score with clipped propensities',
 'For every unit the AIPW score equals mu(1,Z) - mu(0,Z) + (Y - mu(X,Z)) * (X/e(Z) - (1-X)/(1-e(Z))), where mu and e are the fitted models and e is the probability of treatment clipped to [min_overlap, 1 - min_overlap]; the models are fitted with exactly the units of the data, exposures first. Hence its mean over a population is the average treatment effect whenever mu or the (unclipped) e is correct.',
 ['inputs'],'all units, fitted models, overlap bounds and dimensions',
 'Tests compare a sample mean on linear data with the true effect, where the correction term averages out.',
 [P],[('AIPW.fit, transform and _phi',P)],['transform and calculate_score'])
prop('C20','Front-door scores are the front-door influence function',
 'For every unit the front-door score equals (Y - mu(Z,X)) * (P(Z|1) - P(Z|0))/P(Z|X) + sum_z mu(z,X)(P(z|1) - P(z|0)) + (X/P(1) - (1-X)/P(0)) * (sum_x mu(Z,x)P(x) - sum_{z,x} mu(z,x)P(z|X)P(x)), with the probabilities of the treatment and of the observed mediator in the first term clipped to the overlap bound, for mediators of every dimension and treatments of every numeric type. Hence its mean over a population that the model describes is the front-door effect.',
 ['inputs'],'all units, finite mediator supports and dimensions, fitted models and overlap bounds',
 'One test compares the sample mean of scores for a one-dimensional binary mediator with the effect.',
 [P],[('FrontDoorLinearFiniteZ',P)],['transform and calculate_score'])
prop('C21','Linear parameters compute linear scores, and set_to_truth installs the truth',
 'The two-model linear parameter scores a unit by the difference of the ridge predictions of a model fitted on the treated and one fitted on the control units; the linear regression parameter scores it by the first coordinate of n * (D\'D + l_reg*I)^-1 [X,Z] Y with D the fitted design. After set_to_truth of a linear data generator, the linear and AIPW parameters are ready, and score every noiseless unit of that generator with its true effect.',
 ['inputs'],'all small designs, responses, regularizations, and generators',
 'The linear parameters and set_to_truth are not tested.',
 [P],[('LinearParameterBinaryTreatment, LinearRegressionParameter, set_to_truth',P)],['calculate_score, has_enough_samples'])
prop('C22','Structural causal models sample ancestrally',
 'Generating n units draws every variable exactly once, from its own mechanism, with n and with the samples of its parents from the same units in the declared order, and only after its parents. The covariates are the declared covariate variables side by side in the declared order, exposure and response are the samples of the treatment and response variables, and an order of variables in which a child precedes its parent is rejected.',
 ['inputs','configurations'],'all acyclic graphs, orders of variables and parents, multi-dimensional variables, and numbers of units',
 'Tests use two fixed three and four node graphs and compare moments.',
 [S],[('SCM.generate',S)],['generate, and the calls that the mechanisms receive'])
prop('C23','The treatment effect is interventional, and computing it leaves no trace',
 'The computed treatment effect is the mean response of n units generated with the treatment set to 1, minus that of n units with it set to 0, where all other mechanisms, in particular those of the causes of the treatment, are unchanged and the treatment\'s own mechanism is not used. Afterwards, also when a mechanism fails during the computation, the model generates from its original mechanisms.',
 ['inputs','fault_sequences','configurations'],'all models, numbers of units, and points at which a mechanism raises',
 'The method is not tested.',
 [S],[('SCM.compute_treatment_effect',S)],['the computed effect, and generate before and after it'])
prop('C24','Mechanism building blocks compute their documented function of the parents',
 'Linear, transformed-linear and structural mechanisms return the documented function of all parents plus noise that is independent across units and has the given mean and (co)variance, unit by unit and in the documented shape, the logistic mechanisms treat with the probability sigmoid of the parameter, categorical conditioning samples each unit from the mechanism selected by its own parent value and evaluated on its own other parents, and linear data have response X beta + tau T + noise with the noise that was checked. No building block modifies its arguments.',
 ['inputs'],'all numbers, dimensions and values of parents, coefficients, means and conditioning positions',
 'Building blocks are only used inside statistical tests, if at all.',
 [S,D],[('normal_cpd, transformed_normal_cpd, structural_equation_with_noise, categorical_conditioning, ...',S),('LinearDataGenerator',D)],['returned samples and the arguments after the call'])
prop('C25','The paper\'s arms estimate from exactly their adjustment sets',
 'For every number M of back-door paths and all dimensions, the examples of Sections 5.1 and 5.2 provide one front-door arm, which reads exactly Z_0, and 2^M back-door arms, one for each choice of Z_i or V_i for every i = 1..M, each of which reads exactly the columns of its variables, is named after them, expects that many columns and costs the sum of their costs. The three algorithms share these arms and the model and have the requested sample limit and round size and the same error probability. The arms of Section 5.1 use finite-sample intervals and those of Section 5.2 asymptotic ones. Every arm has a nuisance parameter of its own, which needs five units in treatment and in control and limits the probability of treatment to [1/4, 3/4]; the finite-sample intervals start with 1000 held-out units and use the total variance of the sampled variables.',
 ['configurations','inputs'],'all M, dimensions of the variables, costs, limits and seeds',
 'The example is not tested.',
 [U],[('generate_example_from_cpd',U)],['names, costs and inputs of the arms; requests to the model; runs of the algorithms'])
prop('C26','Random models and functions are determined by their seed, and well-shaped',
 'For every seed, building a random nonlinear function or a paper example twice gives the same function or mechanisms, whatever the state of the global random generator, and different seeds give different ones. A random function maps (n, dim) to (n, out_dim) row by row with separately drawn components; it is the fit, with the requested regularisation, to a sample of the requested Gaussian process at n_points values per input dimension from min_x to max_x. Every mechanism of the examples returns one sample of its declared dimension per unit.',
 ['inputs','configurations','histories'],'all seeds, dimensions, and states of the global random generator',
 'Neither is tested.',
 [N,U],[('generate_random_nd_function',N),('get_section_5_1_cpds, get_section_5_2_cpds',U)],['values of the functions and samples of the mechanisms'])
prop('C31','The paper\'s models sample along the paper\'s graph',
 'For every number M of back-door paths, all dimensions and seeds, the models of Sections 5.1 and 5.2 sample every variable once from exactly its parents, in order: V_i from nothing, Z_i from V_i, X from V_1, ..., V_M, Z_0 from X, and Y from Z_0, Z_1, ..., Z_M. The data has X as treatment, Y as response and Z_0, ..., Z_M, V_1, ..., V_M as covariates. Every mechanism is random and depends on every component of its parents, those of different paths are drawn separately, X is binary, and Z_0 has the same finite set of values under both treatments. On that graph each set of covariates that an arm uses identifies the effect: the back-door criterion holds for one variable of every path, the front-door criterion for Z_0.',
 ['configurations','inputs'],'all M, dimensions and seeds',
 'The example is not tested, and identification is a statement about all paths of a graph.',
 [U],[('generate_example_from_cpd, get_section_5_1_cpds, get_section_5_2_cpds',U)],['parents that mechanisms receive, samples of mechanisms, generated data'])
prop('C32','Folds and subsamples are uniformly random and independent of the units',
 'Whenever data is divided, every division of the units into folds of the same sizes is equally likely, whatever the units contain, how many they are and where they stand: every unit and every pair of units is as likely as any other to be in a fold (together), and a division does not depend on the divisions before. This holds for the folds and subsamples of experimental data, for the training and held-out folds of the arms in every update (of each batch with stable splits, otherwise of all units), and for the resamples of the bootstrap arm.',
 ['inputs','histories','configurations'],'all numbers of units and folds, proportions, contents and orders of the units, sequences of divisions',
 'That is a property of the distribution of all results; a test sees a few of them, and each is possible. Held-out estimates are only unbiased, and units of the dataset that are ordered (in time, or by treatment) only harmless, if it holds.',
 [D,A],[('ExpData.k_fold, ExpData.subsample',D),('update of SampleSplittingArm and BootstrapArm',A)],['the units of each fold, over many divisions'])
prop('C33','LUCB breaks ties at random, so that no arm starves',
 'In a round of LUCB in which it cannot tell the arms apart (all estimates are equal or undefined) every pair of arms is sampled with the same probability; and when several arms tie for one of its two choices (the highest upper bound of those with the lowest estimate; the lowest lower bound of the others), each of them is chosen with the same probability; in both cases whatever it chose before. The probability that an arm which ties again and again is not sampled falls geometrically with the number of rounds.',
 ['schedules','histories','configurations'],'all numbers of arms, sets of tied arms and their positions, sequences of rounds, with and without a dataset',
 'An arm that is never chosen makes no run wrong in the finitely many rounds that a test sees; it only keeps the algorithm from ever ending.',
 [B],[('LUCBAlgorithm.select_arms',B)],['samples_by_arm over many rounds'])
prop('C27','Plots show the recorded histories',
 'Plotting a run draws for each requested arm its variance estimates, labelled with its name, and the band between its lower and upper bounds against the cumulative samples, all from the same rounds beginning after the ignored initial ones, and changes none of the data. The plot of a function of two variables is its graph over the requested rectangle.',
 ['inputs','histories'],'all recorded runs, subsets of arms and numbers of ignored rounds; all functions and rectangles',
 'Plotting is not tested.',
 [L],[('plot_bandit_results, plot_3d_function',L)],['the calls that the axes receive'])
prop('C28','The example models report their true parameters',
 'The means, variances and effects that the back-door and front-door example models report are those of the distribution that the model generates from, for every draw of the random parameters.',
 ['inputs'],'all draws of the parameters of the two example models',
 'Tests compare moments of a finite sample, with tolerances wider than the covariance terms.',
 [X],[('back_door_scm, frontdoor_scm',X)],['the reported dictionary, and generated samples'])
prop('C29','On a given dataset, an arm evolves alike under every algorithm',
 'When Uniform, LUCB and successive elimination run on the same dataset with the same arms, error probability and round size, the interval and estimate of an arm after its k-th update are the same under all three, for every k that is reached, as long as the arm itself is a deterministic function of the units it is given.',
 ['histories','schedules','configurations'],'all pairs of algorithms and the different allocation orders that they follow on the same dataset',
 'A property of several runs together; tests look at one run at a time.',
 [B],[('stable_order branches of the run methods',B)],['the updates of an arm, and its published values, in runs of different algorithms'])
prop('C30','Nuisance confidence widths are the mixture bounds of the latest data',
 'The width that the AIPW parameters report for error probability delta, subGaussian parameter g and mixture parameter rho is R(delta) * (1/min_overlap - 1), and that of the front-door parameter is R(delta/3) * (2/min_overlap - 1) + B(delta/9) * (1/min_overlap - 1), where R(d)^2 = g * ln(det(g V + rho I) / (rho^dim d^2)) / lambda_min(V (V + rho/g I)^-1 V), V = D\'D is the Gram matrix of the covariates (front door: of the treatment and the mediators) of all units of the data of the latest fit, and B(d)^2 = (1/n) (1/4 + rho/n) ln((n/4 + rho) / (d^2 rho)) for n units. Widths are positive, infinite (or huge, up to rounding) while the units do not span all directions, do not decrease when delta does, depend on nothing else, and asking for them changes nothing.',
 ['inputs','histories','configurations'],'all designs of every numeric type (singular ones included), sequences of fits, error probabilities, noise levels, mixture and overlap parameters',
 'Widths are not tested; an error of a constant or of the level leaves intervals plausible and only breaks their coverage.',
 [P],[('AIPW.calculate_cs_width',P),('FrontDoorLinearFiniteZ.calculate_cs_width',P)],['return value of calculate_cs_width'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
  for r in R:
    assert len(r['title'])<=80,(r['id'],len(r['title']),r['title'])
    f.write(json.dumps(r)+'\n')
print(len(R))
