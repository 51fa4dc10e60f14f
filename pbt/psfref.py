"""Reference for PSFConvolvedModel2D images, by direct sums."""
import numpy as np
from scipy import ndimage


def averaged(f, xs, ys, factor):
    """Average of f over factor x factor sub-pixel centres of unit pixels."""
    k = (np.arange(factor) + 0.5) / factor - 0.5
    out = 0.0
    for a in k:
        for b in k:
            out = out + f(xs + a, ys + b)
    return out / factor**2


def sampled(f, x0, y0, nx, ny, factor, p=1, window=None):
    """Model image at p x data resolution.

    ``factor`` oversamples all pixels, or those of ``window`` (lower corner x,
    lower corner y, size) only.  With a window the others are sampled once per
    PSF pixel.
    """
    cx = x0 + (np.arange(nx * p) + 0.5) / p - 0.5
    cy = y0 + (np.arange(ny * p) + 0.5) / p - 0.5
    xs, ys = np.meshgrid(cx, cy)

    def fine(sub):
        k = ((np.arange(sub) + 0.5) / sub - 0.5) / p
        return sum(f(xs + a, ys + b) for a in k for b in k) / sub**2

    if window is None:
        return fine(factor // p)
    coarse = f(xs, ys)
    wx, wy, size = window
    px = x0 + np.repeat(np.arange(nx), p)
    py = y0 + np.repeat(np.arange(ny), p)
    inx = (px >= wx) & (px < wx + size)
    iny = (py >= wy) & (py < wy + size)
    return np.where(iny[:, None] & inx[None, :], fine(factor // p), coarse)


def convolved(image, psf):
    """Zero padded direct convolution, same size as the image."""
    image, psf = np.asarray(image, float), np.asarray(psf, float)
    ny, nx = image.shape
    ky, kx = psf.shape
    full = np.zeros((ny + ky - 1, nx + kx - 1))
    for j in range(ky):
        for i in range(kx):
            if psf[j, i] != 0:
                full[j : j + ny, i : i + nx] += psf[j, i] * image
    oy, ox = (ky - 1) // 2, (kx - 1) // 2
    return full[oy : oy + ny, ox : ox + nx]


def rotated(psf, angle):
    return ndimage.rotate(np.asarray(psf, float), angle, reshape=False) if angle != 0 else psf


def reduced(image, p):
    ny, nx = image.shape
    return image.reshape(ny // p, p, nx // p, p).mean(axis=(1, 3))


def image_of(f, x0, y0, nx, ny, factor=1, p=1, window=None, psf=None, angle=0.0):
    img = sampled(f, x0, y0, nx, ny, factor, p, window)
    if psf is not None:
        img = convolved(img, rotated(psf, angle))
    return reduced(img, p)
