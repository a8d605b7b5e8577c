"""WAV reading and writing against the standard library's wave module."""
import os
import struct
import tempfile
import wave

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.gen import SEED
from pbt.harness import Violation, facet
from ssspy.io import wavread, wavwrite

P = "C24"
RATES = [8000, 11025, 16000, 22050, 44100, 48000, 1, 192000, 3000001, 100000000]


def scratch():
    return tempfile.TemporaryDirectory(prefix="verif_wav_")


def ints(rng, bits, T, C, style):
    lo, hi = -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
    x = rng.integers(lo, hi, size=(T, C), endpoint=True)
    if style == "edges":
        x = rng.choice([lo, lo + 1, -1, 0, 1, hi - 1, hi], size=(T, C))
    elif style == "quiet":
        x = rng.integers(-3, 3, size=(T, C), endpoint=True)
    return x


def std_write(path, x, bits, rate):
    """x (T, C) signed integers."""
    with wave.open(path, "wb") as f:
        f.setnchannels(x.shape[1])
        f.setsampwidth(bits // 8)
        f.setframerate(rate)
        if bits == 8:
            raw = (x + 128).astype("u1").tobytes()
        else:
            raw = x.astype("<i%d" % (bits // 8)).tobytes()
        f.writeframes(raw)


def std_read(path):
    with wave.open(path, "rb") as f:
        C, w, rate, T = f.getnchannels(), f.getsampwidth(), f.getframerate(), f.getnframes()
        raw = f.readframes(T)
    if w == 1:
        x = np.frombuffer(raw, "u1").astype(int) - 128
    else:
        x = np.frombuffer(raw, "<i%d" % w).astype(int)
    return x.reshape(-1, C), 8 * w, rate, T


def lengths(usual):
    """Frame counts; one file in twelve is long."""
    long = st.sampled_from(range(usual + 1, 70001, 367))
    return st.integers(0, 11).flatmap(lambda k: long if k == 11 else st.integers(1, usual))


def read_cases():
    return st.fixed_dictionaries({
        "seed": SEED, "T": lengths(300), "C": st.sampled_from([1, 1, 2, 2, 3, 4]), "bits": st.sampled_from([16, 16, 8, 32]),
        "rate": st.sampled_from(RATES), "style": st.sampled_from(["full", "edges", "quiet"]), "off": st.floats(0, 1), "num": st.floats(0, 1),
        "use_off": st.booleans(), "use_num": st.sampled_from(["none", "some", "rest"]),
        "r2d": st.sampled_from([None, True, False]), "cf": st.sampled_from([None, True, False]),
        "tail": st.booleans(),
    })


@facet(P, "read", read_cases, quick=2500, thorough=40000, shards=2,
       rule="files written by the standard library, 8/16/32 bits, 1-4 channels, any excerpt and layout flag; exact scaled samples, shape and "
            "rate; all evaluated")
def read(case):
    rng = gen.rng_of(case)
    T, C, bits = case["T"], case["C"], case["bits"]
    x = ints(rng, bits, T, C, case["style"])
    with scratch() as d:
        path = os.path.join(d, "a.wav")
        std_write(path, x, bits, case["rate"])
        if case["tail"]:  # further chunks may follow the samples
            with open(path, "ab") as f:
                f.write((b"\0" if (x.size * bits // 8) % 2 else b"") + b"LIST" + struct.pack("<I", 4) + b"INFO")
            with open(path, "r+b") as f:
                size = os.path.getsize(path)
                f.seek(4)
                f.write(struct.pack("<I", size - 8))
        off = int(case["off"] * (T - 1)) if case["use_off"] else 0
        kw = {}
        if case["use_off"]:
            kw["frame_offset"] = off
        n = T - off
        if case["use_num"] == "some":
            n = max(1, int(case["num"] * n))
            kw["num_frames"] = n
        elif case["use_num"] == "rest":
            kw["num_frames"] = n
        if case["r2d"] is not None:
            kw["return_2d"] = case["r2d"]
        if case["cf"] is not None:
            kw["channels_first"] = case["cf"]
        before = open(path, "rb").read()
        data, rate = wavread(path, **kw)
        data = np.array(data)
        if open(path, "rb").read() != before:
            raise Violation("reading changed the file")
    want = x[off:off + n] / 2.0 ** (bits - 1)
    if C == 1 and not case["r2d"]:
        want = want[:, 0]
    elif case["cf"]:
        want = want.T
    if rate != case["rate"]:
        raise Violation("sample rate %s instead of %s" % (rate, case["rate"]))
    if data.shape != want.shape:
        raise Violation("shape %s instead of %s" % (data.shape, want.shape))
    if data.dtype.kind != "f" or not np.array_equal(data, want):
        raise Violation("samples differ from the stored ones by %.3g" % np.max(np.abs(data - want)))
    return ["%d-bit" % bits, "C=%d" % C, "excerpt" if n < T else "whole", "r2d=%s" % case["r2d"], "cf=%s" % case["cf"]]


def write_cases():
    return st.fixed_dictionaries({
        "seed": SEED, "T": lengths(200), "C": st.sampled_from([0, 1, 2]), "dtype": st.sampled_from(["f2", "f4", "f8", "f16", "i1", "i2"]),
        "rate": st.sampled_from(RATES), "style": st.sampled_from(["full", "edges", "quiet", "loud"]), "cf": st.sampled_from([None, True, False]),
        "layout": st.sampled_from(["C", "F", "view", "reversed"]), "old": st.integers(0, 3000),
    })


def waveform(case):
    """(T, max(C, 1)) samples of the requested type."""
    rng = gen.rng_of(case)
    T, C = case["T"], max(case["C"], 1)
    dt = case["dtype"]
    if dt[0] == "i":
        return ints(rng, 8 * int(dt[1]), T, C, case["style"]).astype(dt)
    x = rng.uniform(-1, 1, (T, C))
    if case["style"] == "edges":
        x = rng.choice([-1.0, 1.0, 0.0, 0.5, -0.5, 1 - 2**-15, -1 + 2**-15, 2**-15, -(2**-15), 0.99999, -0.99999], size=(T, C))
    elif case["style"] == "quiet":
        x = x * 2e-4
    elif case["style"] == "loud":
        x = x * rng.choice([1.5, 10.0, 3e4])
    return x.astype(dt)


def lay(x, layout):
    if layout == "F":
        return np.asfortranarray(x)
    if layout == "view":
        return np.repeat(x, 2, axis=0)[::2]
    if layout == "reversed":
        return x[::-1].copy()[::-1]
    return np.ascontiguousarray(x)


@facet(P, "write", write_cases, quick=2500, thorough=40000, shards=2,
       rule="floating and integer waveforms in any layout, over an existing file; read back with the standard library (header, sizes, samples "
            "within one quantisation step, saturation) and with wavread; all evaluated")
def write(case):
    x = waveform(case)
    T, C = x.shape
    arg = x[:, 0] if case["C"] == 0 else x
    if case["C"] and case["cf"]:
        arg = arg.T
    arg = lay(arg, case["layout"])
    keep = arg.copy()
    kw = {} if case["cf"] is None else {"channels_first": case["cf"]}
    with scratch() as d:
        path = os.path.join(d, "b.wav")
        if case["old"]:
            with open(path, "wb") as f:
                f.write(b"x" * case["old"])
        wavwrite(path, arg, sample_rate=case["rate"], **kw)
        raw = open(path, "rb").read()
        y, bits, rate, frames = std_read(path)
        again, rate2 = wavread(path, return_2d=True)
        again = np.array(again)
    if not np.array_equal(arg, keep):
        raise Violation("the waveform was modified")
    want_bits = 8 if case["dtype"] == "i1" else 16
    if (bits, rate, frames, y.shape) != (want_bits, case["rate"], T, (T, C)):
        raise Violation("header says %d bits, %d Hz, %d frames, shape %s" % (bits, rate, frames, y.shape))
    if struct.unpack("<I", raw[4:8])[0] != len(raw) - 8 or len(raw) != 44 + T * C * bits // 8:
        raise Violation("file size fields are wrong")
    if struct.unpack("<IHH", raw[28:36]) != (case["rate"] * C * bits // 8, C * bits // 8, bits):
        raise Violation("byte rate, block alignment or bit depth is wrong")
    v = 2 ** (bits - 1)
    if case["dtype"][0] == "i":
        if not np.array_equal(y, x.astype(int)):
            raise Violation("integer samples are not stored verbatim")
    else:
        e = np.clip(x.astype("f8") * v, -v, v - 1)
        if not np.all(np.abs(y - e) <= 1):
            raise Violation("samples are off by %.3g quantisation steps" % np.max(np.abs(y - e)))
        if not np.all((y == 0) | (np.sign(y) == np.sign(e))):
            raise Violation("a sample changed its sign")
        if np.any(y[x >= 1] != v - 1) or np.any(y[x <= -1] != -v):
            raise Violation("full-scale samples do not saturate")
        exact = e == np.round(e)
        if not np.array_equal(y[exact], e[exact]):
            raise Violation("exactly representable samples are not stored exactly")
    if rate2 != case["rate"] or not np.array_equal(again, y / float(v)):
        raise Violation("wavread does not return what the file holds")
    return [case["dtype"], "C=%d" % case["C"], "cf=%s" % case["cf"], case["style"], case["layout"]]


@facet(P, "round_trip", read_cases, quick=800, thorough=10000,
       rule="reading and writing again reproduces a 16-bit file byte for byte (up to two channels); all evaluated")
def round_trip(case):
    rng = gen.rng_of(case)
    C = min(case["C"], 2)
    x = ints(rng, 16, case["T"], C, case["style"])
    cf = bool(case["cf"])
    with scratch() as d:
        a, b = os.path.join(d, "a.wav"), os.path.join(d, "b.wav")
        std_write(a, x, 16, case["rate"])
        data, rate = wavread(a, channels_first=cf, return_2d=True if C == 1 and case["r2d"] else None)
        wavwrite(b, np.asarray(data), sample_rate=rate, channels_first=cf)
        if open(a, "rb").read() != open(b, "rb").read():
            raise Violation("write(read(file)) differs from the file")
        # in place: the samples must have been read completely
        data = np.array(data)
        wavwrite(a, data, sample_rate=rate, channels_first=cf)
        if open(a, "rb").read() != open(b, "rb").read():
            raise Violation("overwriting the file it was read from changes it")
    return ["C=%d" % C, "cf=%s" % cf]


def reject_cases():
    return st.fixed_dictionaries({
        "seed": SEED, "T": st.integers(1, 60), "C": st.integers(1, 3), "bits": st.sampled_from([8, 16]), "by": st.integers(1, 50),
        "tail": st.sampled_from([0, 0, 8, 400]),
        "what": st.sampled_from(["off_neg", "num_neg", "num_long", "off_num_long", "off_long", "rifx", "not_wave", "junk_chunk", "not_pcm",
                                 "ext_fmt", "bad_rate", "cut", "w_channels", "w_ndim", "w_dtype", "w_name", "not_data"]),
    })


def must_raise(kinds, fn, what):
    try:
        got = fn()
    except kinds:
        return
    raise Violation("%s was accepted (%s)" % (what, getattr(got, "shape", None) if not isinstance(got, tuple) else got[0].shape))


@facet(P, "rejections", reject_cases, quick=1500, thorough=20000,
       rule="excerpts outside the file, malformed or unsupported files and unsupported waveforms are refused; a refused waveform leaves an "
            "existing file untouched; all evaluated")
def rejections(case):
    rng = gen.rng_of(case)
    T, C, bits, by, what = case["T"], case["C"], case["bits"], case["by"], case["what"]
    x = ints(rng, bits, T, C, "full")
    with scratch() as d:
        path = os.path.join(d, "a.wav")
        std_write(path, x, bits, 16000)
        if case["tail"] and what in ("num_long", "off_num_long", "off_long"):  # a chunk behind the samples is not part of them
            with open(path, "ab") as f:
                f.write((b"\0" if (x.size * bits // 8) % 2 else b"") + b"LIST" + struct.pack("<I", case["tail"]) + bytes(case["tail"]))
            with open(path, "r+b") as f:
                size = os.path.getsize(path)
                f.seek(4)
                f.write(struct.pack("<I", size - 8))
        raw = bytearray(open(path, "rb").read())

        def rewrite(b):
            with open(path, "wb") as f:
                f.write(bytes(b))

        if what == "off_neg":
            must_raise(ValueError, lambda: wavread(path, frame_offset=-min(by, 10)), "negative frame_offset")
            must_raise(ValueError, lambda: wavread(path, frame_offset=-1, num_frames=1), "negative frame_offset with num_frames")
        elif what == "num_neg":
            must_raise(ValueError, lambda: wavread(path, num_frames=-by), "negative num_frames")
        elif what == "num_long":
            must_raise(ValueError, lambda: wavread(path, num_frames=T + by), "num_frames beyond the end")
        elif what == "off_num_long":
            off = by % T
            must_raise(ValueError, lambda: wavread(path, frame_offset=off, num_frames=T - off + 1 + by % 3), "excerpt beyond the end")
        elif what == "off_long":
            must_raise(ValueError, lambda: wavread(path, frame_offset=T + by), "frame_offset beyond the end")
            must_raise(ValueError, lambda: wavread(path, frame_offset=T + by, num_frames=1), "frame_offset beyond the end with num_frames")
        elif what == "rifx":
            raw[:4] = b"RIFX"
            rewrite(raw)
            must_raise(NotImplementedError, lambda: wavread(path), "big-endian RIFX")
        elif what == "not_wave":
            raw[8:12] = b"AVI "
            rewrite(raw)
            must_raise(NotImplementedError, lambda: wavread(path), "a RIFF file that is not WAVE")
        elif what == "junk_chunk":
            rewrite(raw[:12] + b"JUNK" + struct.pack("<I", 4) + b"abcd" + raw[12:])
            must_raise(NotImplementedError, lambda: wavread(path), "a chunk before fmt")
        elif what == "not_data":
            rewrite(raw[:36] + b"LIST" + struct.pack("<I", 4) + b"abcd" + raw[36:])
            must_raise(NotImplementedError, lambda: wavread(path), "a chunk between fmt and data")
        elif what == "not_pcm":
            raw[20:22] = struct.pack("<H", 3)
            rewrite(raw)
            must_raise(NotImplementedError, lambda: wavread(path), "a non-PCM format")
        elif what == "ext_fmt":
            raw[16:20] = struct.pack("<I", 18)
            rewrite(raw[:36] + b"\0\0" + raw[36:])
            must_raise(NotImplementedError, lambda: wavread(path), "an extended fmt chunk")
        elif what == "bad_rate":
            raw[28:32] = struct.pack("<I", struct.unpack("<I", raw[28:32])[0] + by)
            rewrite(raw)
            must_raise(ValueError, lambda: wavread(path), "an inconsistent header")
        elif what == "cut":
            rewrite(raw[: len(raw) - 1 - by % (len(raw) - 44)])
            must_raise(Exception, lambda: wavread(path), "a truncated file")
        else:
            good = bytes(raw)
            if what == "w_channels":
                w = rng.standard_normal((20, 3 + by % 4))
                must_raise(ValueError, lambda: wavwrite(path, w, sample_rate=8000), "more than two channels")
                must_raise(ValueError, lambda: wavwrite(path, w.T, sample_rate=8000, channels_first=True), "more than two channels")
            elif what == "w_ndim":
                w = rng.standard_normal((4, 2, 2) if by % 2 else ())
                must_raise(ValueError, lambda: wavwrite(path, w, sample_rate=8000), "a %d-dimensional waveform" % w.ndim)
            elif what == "w_dtype":
                dt = ["i4", "i8", "u1", "u2", "c16", "?"][by % 6]
                must_raise(ValueError, lambda: wavwrite(path, np.ones(10, dt), sample_rate=8000), "dtype " + dt)
            else:
                must_raise(AssertionError, lambda: wavwrite(os.path.join(d, "c.mp3"), np.ones(10), sample_rate=8000), "a name that is not .wav")
                if os.path.exists(os.path.join(d, "c.mp3")):
                    raise Violation("a refused name was created")
            if open(path, "rb").read() != good:
                raise Violation("a refused waveform damaged the existing file")
    return [what]
