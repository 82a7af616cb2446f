"""Specification functions, in the same language the interpreter executes: textbook definitions, no code of /repo."""
import numpy as np


def cg(A, b, X, u, steps):
    """steps of the conjugate gradient method for A x = b, started from (and stored in) row u of X"""
    r = named(b - A.dot(X[u]))
    p = r.copy()
    rsold = r.dot(r)
    if rsold < 1e-20:
        return
    for it in range(steps):
        Ap = A.dot(p)
        alpha = rsold / p.dot(Ap)
        X[u] = X[u] + alpha * p
        r = r - alpha * Ap
        rsnew = r.dot(r)
        if rsnew < 1e-20:
            break
        p = r + (rsnew / rsold) * p
        rsold = rsnew


def solver(C, X, Y, reg):
    """stands for the contract of the solver in use"""


def loss_of(C, X, Y, reg):
    """stands for the contract of the training loss"""


def als_fit(C, Ct, X, Y, reg, iterations, callback, with_loss):
    """alternating updates: users from the current items, then items from the new users"""
    for iteration in range(iterations):
        solver(C, X, Y, reg)
        solver(Ct, Y, X, reg)
        if callback is not None:
            if with_loss:
                callback(iteration, 0, loss_of(C, X, Y, reg))
            else:
                callback(iteration, 0, None)
