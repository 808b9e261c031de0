"""C18: effect contracts: the source of randomness and the frame of every sampler, and the contract of check_random_state"""
import ast, os
from .base import *
from pvc.effects import Effects, SOURCES

MODULES = ('utils', 'exact_sampling', 'mcmc_sampling', 'intermediate_sampling', 'bless', 'finite_dpps', 'exotic_dpps_core', 'exotic_dpps', 'random_matrices', 'beta_ensembles',
           'beta_ensemble_polynomial_potential_core', 'beta_ensemble_polynomial_potential', 'multivariate_jacobi_ope')
# the public samplers: each must exist, take a source of randomness and meet the frame condition
PUBLIC = {
    'utils': ('check_random_state',),
    'exact_sampling': ('dpp_sampler_generic_kernel', 'proj_dpp_sampler_kernel', 'proj_dpp_sampler_kernel_Chol', 'proj_dpp_sampler_kernel_GS', 'proj_dpp_sampler_kernel_Schur',
                       'dpp_eig_vecs_selector', 'proj_dpp_sampler_eig', 'proj_dpp_sampler_eig_GS', 'proj_dpp_sampler_eig_GS_bis', 'proj_dpp_sampler_eig_KuTa12',
                       'dpp_vfx_sampler', 'k_dpp_vfx_sampler', 'alpha_dpp_sampler', 'alpha_k_dpp_sampler', 'k_dpp_eig_vecs_selector'),
    'mcmc_sampling': ('dpp_sampler_mcmc', 'initialize_AED_sampler', 'initialize_AD_and_E_sampler', 'add_exchange_delete_sampler', 'add_delete_sampler', 'basis_exchange_sampler', 'zonotope_sampler'),
    'bless': ('bless', 'bless_size'),
    'finite_dpps': ('FiniteDPP.sample_exact', 'FiniteDPP.sample_exact_k_dpp', 'FiniteDPP.sample_mcmc', 'FiniteDPP.sample_mcmc_k_dpp'),
    'exotic_dpps_core': ('ust_sampler_wilson', 'ust_sampler_aldous_broder', 'uniform_permutation'),
    'exotic_dpps': ('CarriesProcess.sample', 'DescentProcess.sample', 'VirtualDescentProcess.sample', 'PoissonizedPlancherel.sample', 'UST.sample'),
    'random_matrices': ('mu_ref_normal_sampler_tridiag', 'hermite_sampler_full', 'mu_ref_gamma_sampler_tridiag', 'laguerre_sampler_full', 'mu_ref_beta_sampler_tridiag', 'jacobi_sampler_full',
                        'circular_sampler_full', 'mu_ref_unif_unit_circle_sampler_quindiag', 'ginibre_sampler_full'),
    'beta_ensembles': tuple(c + 'Ensemble.sample_' + m for c in ('Hermite', 'Laguerre', 'Jacobi', 'Circular') for m in ('full_model', 'banded_model')) + ('GinibreEnsemble.sample_full_model',),
    'beta_ensemble_polynomial_potential_core': ('sampler_exact_convex_quartic', 'sampler_mala', 'gen_gamma_alpha_lt_1_sampler', 'trunc_gaussian_sampler'),
    'beta_ensemble_polynomial_potential': ('BetaEnsemblePolynomialPotential.sample_mcmc',),
    'multivariate_jacobi_ope': ('MultivariateJacobiOPE.sample', 'MultivariateJacobiOPE.sample_chain_rule_proposal'),
}
OPTIONAL = {'gen_gamma_alpha_lt_1_sampler', 'trunc_gaussian_sampler', 'sample_chain_rule_proposal', 'proj_dpp_sampler_eig', 'proj_dpp_sampler_kernel'}
# parameters of the public samplers that are arrays, containers, kernels, data or graphs of the caller; an augmented assignment to one of these writes in place
ARRAYS = {'kernel', 'K', 'L', 'eig_vecs', 'V', 'eig_vals', 'X_data', 'intermediate_sample_info', 's_init', 'A_zono', 'list_of_neighbors', 'params', 'x', 'x0', 'E_poly', 'ind_sel', 'graph', 'jacobi_params', 'c_obj', 'nb_samples'}

class EffectContract(Contract):
    prop = 'C18'
    must_reach = ()
    assumes = ('calls into numpy, scipy and networkx neither draw from the global generator nor write into their arguments, except those the analysis lists (numpy.random, *.rvs, out=, overwrite_*=, in-place methods)',
               'the likelihood function eval_L and other callables given by the user are pure',
               'the wall-clock budget T_max is not used: with it the length of a chain depends on the machine',
               'uninitialised memory (numpy.empty) is not read')
    backend = 'effect analysis'
    def run(self, ctx):
        fx = Effects(ctx.repo, ['dppy.' + m for m in sorted(set(MODULES) | set(x[:-3] for x in os.listdir(os.path.join(ctx.repo.root, 'dppy')) if x.endswith('.py') and x != '__init__.py'))])
        m = 'dppy.' + self.scenario
        if m not in fx.mods: raise Unsupported('module %s not found' % m)
        public = ['%s:%s' % (m, q) for q in PUBLIC.get(self.scenario, ())]
        n = 0
        for q in public:
            if q in fx.functions: continue
            if q.split(':')[1].split('.')[-1] in OPTIONAL: continue
            c = q.split(':')[1].split('.')
            # an inherited method
            if len(c) == 2 and self.inherited(fx, m, c[0], c[1]): continue
            raise Unsupported('public sampler %s not found' % q)
        for q in sorted(fx.functions):
            if not q.startswith(m + ':') or q == 'dppy.utils:check_random_state': continue
            mod, cls, node = fx.functions[q]
            s = fx.summary(q)
            ispublic = q in public
            if not (ispublic or s.sources or s.kwsource): continue
            short = q.split(':')[1]
            ctx.run.functions.add(q)
            if ispublic:
                ctx.check('%s takes a source of randomness' % short, self.takes(node)); n += 1
            for (kind, line, col), (msg, ok) in sorted(s.sites.items()):
                ctx.check('%s, line %d (%s): %s' % (short, line, kind, msg), bool(ok)); n += 1
            if not any(k[0] != 'seed' for k in s.sites):
                ctx.check('%s: no draw' % short, True)
            if not ispublic: continue
            a = node.args
            for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else []):
                if cls is not None and p == 'self' or p in SOURCES: continue
                ws = set(s.writes.get(p, ()))
                for k, v in s.writes.items():
                    if a.kwarg and p == a.kwarg.arg and k.startswith('**'): ws |= v
                bad = sorted(w for w in ws if w[0] == 'in' or p in ARRAYS)
                ctx.check('%s does not write into its argument %s%s' % (short, p, ' (line %s)' % bad[0][1] if bad else ''), not bad); n += 1
            if cls is not None:
                user = fx.user_attrs(mod, cls)
                for attr in sorted(user):
                    bad = sorted(w for w in s.selfwrites.get(attr, ()) if w[0] == 'in')
                    ctx.check('%s does not write into the data held in self.%s%s' % (short, attr, ' (line %s)' % bad[0][1] if bad else ''), not bad); n += 1
    def takes(self, node):
        a = node.args
        return any(x.arg in SOURCES for x in a.posonlyargs + a.args + a.kwonlyargs) or a.kwarg is not None
    def inherited(self, fx, m, c, name):
        return any(q.endswith('.' + name) for q in fx.functions)

class Samplers(EffectContract):
    target, title = 'dppy:*', 'source of randomness and frame of the samplers'
    scenarios = tuple(m for m in MODULES if m != 'utils')

class RandomState(FnContract):
    """check_random_state: a generator given is the one used, an integer seeds a generator of its own"""
    prop, target, title = 'C18', 'dppy.utils:check_random_state', 'check_random_state'
    uses = {}
    scenarios = ('int', 'RandomState', 'None', 'other', 'string')
    must_reach = ('pre',)
    def new(ctx, args, kw):
        g = ctx.ghost
        s = lib.arg(args, kw, 0, 'seed')
        if s is None: raise Unsupported('generator from entropy')
        r = Rng('seeded'); r.seeded = s
        return r
    externals = {'numpy.random.RandomState': new, 'numpy.random.mtrand.RandomState': new}
    def setup(self, ctx):
        g = ctx.ghost
        s = self.scenario
        g['given'] = {'int': z3.Int('seed'), 'RandomState': Rng('given'), 'None': None, 'other': z3.Real('x'), 'string': 'seed'}[s]
        return [g['given']], {}
    def on_draw(self, ctx, d):
        ctx.check('no draw', False); raise PathEnd()
    def on_return(self, ctx, v):
        g, s = ctx.ghost, self.scenario
        if s == 'int': ctx.check('a new generator seeded with the integer', z3.BoolVal(isinstance(v, Rng)) if not isinstance(v, Rng) or not hasattr(v, 'seeded') or not is_z3(v.seeded) else v.seeded == g['given'])
        if s == 'int': ctx.check('a generator of its own', isinstance(v, Rng) and hasattr(v, 'seeded'))
        if s == 'RandomState': ctx.check('the generator given is returned as it is', v is g['given'])
        if s == 'None': ctx.check('the global generator', isinstance(v, Ext) and v.name in ('numpy.random.mtrand._rand',) )
        if s in ('other', 'string'): ctx.check('anything else is refused', False)
    def on_raise(self, ctx, e):
        ctx.check('only an unusable seed is refused (ValueError)', self.scenario in ('other', 'string') and e.kind == "ValueError")

CONTRACTS = [RandomState, Samplers]
