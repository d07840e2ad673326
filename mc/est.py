"""The estimators of the package as a table: the six fixed-point M-estimators
in functional and class form, plus the other covariance estimators."""
import numpy as np
from robuststats.estimation import base, covariance as cov, structured as struct

FUNC = {
    ('tyler', False): cov.tyler_shape_matrix_fixedpoint,
    ('student', False): cov.student_t_mle_fixed_point,
    ('huber', False): cov.huber_m_estimator_fixed_point,
    ('tyler', True): cov.complex_tyler_shape_matrix_fixedpoint,
    ('student', True): cov.complex_student_t_mle_fixed_point,
    ('huber', True): cov.complex_huber_m_estimator_fixed_point,
}
CLASS = {
    ('tyler', False): cov.TylerShapeMatrix,
    ('student', False): cov.CenteredStudentMLE,
    ('huber', False): cov.HuberMEstimator,
    ('tyler', True): cov.ComplexTylerShapeMatrix,
    ('student', True): cov.ComplexCenteredStudentMLE,
    ('huber', True): cov.ComplexHuberMEstimator,
}
PARNAME = {'student': 'df', 'huber': 'q'}
PARS = {'tyler': [None], 'student': [1, 3, 0.5, 10, 100.], 'huber': [0.9, 0.5, 0.99, 0.2]}


def call(kind, par, X, **kw):
    f = FUNC[kind, bool(np.iscomplexobj(X))]
    if kind != 'tyler':
        kw[PARNAME[kind]] = par
    return f(X, **kw)


def make(kind, par, cplx, **kw):
    if kind != 'tyler':
        kw[PARNAME[kind]] = par
    return CLASS[kind, cplx](**kw)
