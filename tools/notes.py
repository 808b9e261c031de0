NOTE = globals().get('NOTE', {})
NA = globals().get('NA', {})
NOTE.update({
 'C18': 'assigns/frame and random-source contracts of every sampler, decided by an effect analysis over the real source (calls replaced by the callee\'s effect contract); check_random_state by symbolic execution and z3',
})
NA.update({})
