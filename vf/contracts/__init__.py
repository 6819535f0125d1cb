ALL = ['stepback_', 'oned', 'nd', 'hess', 'mini', 'main', 'upd', 'steps_', 'dirs', 'cg', 'refine', 'select']
