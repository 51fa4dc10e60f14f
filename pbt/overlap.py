"""Overlap of pixels with ellipses, independently of photutils."""
import numpy as np


def _sector(px, py, qx, qy):
    return 0.5 * np.arctan2(px * qy - py * qx, px * qx + py * qy)


def _edge(px, py, qx, qy):
    """Signed area of (unit circle) n (triangle origin, p, q)."""
    dx, dy = qx - px, qy - py
    a = dx * dx + dy * dy
    b = px * dx + py * dy
    c = px * px + py * py - 1.0
    disc = b * b - a * c
    root = np.sqrt(np.maximum(disc, 0.0))
    t1 = np.clip((-b - root) / a, 0.0, 1.0)
    t2 = np.clip((-b + root) / a, 0.0, 1.0)
    x1, y1 = px + t1 * dx, py + t1 * dy
    x2, y2 = px + t2 * dx, py + t2 * dy
    cut = _sector(px, py, x1, y1) + 0.5 * (x1 * y2 - y1 * x2) + _sector(x2, y2, qx, qy)
    miss = (disc <= 0) | (t1 >= t2)
    return np.where(miss, _sector(px, py, qx, qy), cut)


def exact(shape, x0, y0, a, b, theta):
    """Fraction of the area of every pixel inside of the ellipse."""
    ny, nx = shape
    yy, xx = np.mgrid[0:ny, 0:nx].astype(float)
    ct, sn = np.cos(theta), np.sin(theta)
    corners = []
    for cx, cy in ((-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)):
        x, y = xx + cx - x0, yy + cy - y0
        corners.append(((x * ct + y * sn) / a, (-x * sn + y * ct) / b))
    area = 0.0
    for k in range(4):
        area = area + _edge(*corners[k], *corners[(k + 1) % 4])
    return np.clip(np.abs(area) * a * b, 0.0, 1.0)


def subpixel(shape, x0, y0, a, b, theta, n=1):
    """(fraction of n x n sub-pixel centres inside, smallest distance to the edge)."""
    ny, nx = shape
    k = (np.arange(n) + 0.5) / n - 0.5
    sy = (np.arange(ny)[:, None] + k).ravel() - y0
    sx = (np.arange(nx)[:, None] + k).ravel() - x0
    x, y = np.meshgrid(sx, sy)
    ct, sn = np.cos(theta), np.sin(theta)
    u = ((x * ct + y * sn) / a) ** 2 + ((-x * sn + y * ct) / b) ** 2
    inside = (u < 1).astype(float)
    near = np.min(np.abs(u - 1)) if u.size else 1.0
    return inside.reshape(ny, n, nx, n).mean(axis=(1, 3)), near
