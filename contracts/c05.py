from .mcmc import *
class AED05(AED): prop = 'C05'
class AD05(AD): prop = 'C05'
class E05(Ex): prop = 'C05'
CONTRACTS = [AED05, AD05, E05]
