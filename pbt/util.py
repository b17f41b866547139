"""Numerical helpers shared by the checks (all numpy float64)."""
import numpy as np


def np64(x):
  return np.asarray(x, dtype=np.float64)


def krylov_deficient(M, b, tol=1e-5):
  """Whether the Krylov space of (M, b) stops growing before dimension len(b)."""
  M, b = np64(M), np64(b)
  n = len(b)
  nb = np.linalg.norm(b)
  if nb == 0:
    return True
  V = [b / nb]
  for k in range(n - 1):
    w = M @ V[-1]
    s = np.linalg.norm(w)
    for _ in range(2):
      for v in V:
        w = w - (v @ w) * v
    h = np.linalg.norm(w)
    if h <= tol * max(s, 1e-30):
      return True
    V.append(w / h)
  return False


def kkt_matrix(Q, A):
  n, m = Q.shape[0], A.shape[0]
  return np.block([[Q, A.T], [A, np.zeros((m, m))]])
