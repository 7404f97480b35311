"""Driving the collection loop with scripted batch results instead of real sampling."""
import contextlib
import io
import os
import pathlib
import tempfile
from unittest import mock

import stim
from hypothesis import strategies as st

from .core import Violation

STYLES = ["honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2", "honeycomb_EM3", "honeycomb_PC3", "surface_SD6", "surface_SI1000"]


class Interrupted(BaseException):
    pass


class Scripted:
    """Replaces the sampler: hands out errors from the script and observes the loop."""
    def __init__(self, errors_of, limit=4000, on_call=None):
        self.calls = []
        self.errors_of = errors_of
        self.limit = limit
        self.on_call = on_call

    def __call__(self, *, circuit, num_shots, decoder, model_circuit=None):
        if len(self.calls) >= self.limit:
            raise Violation(f"collection still running after {self.limit} batches")
        if self.on_call is not None:
            self.on_call(circuit, num_shots, decoder)
        e = self.errors_of(len(self.calls), circuit, num_shots)
        self.calls.append(dict(shots=num_shots, errors=e, circuit=circuit, decoder=decoder, model=model_circuit))
        return num_shots - e


@contextlib.contextmanager
def scripted(stub):
    import collect_data
    import decoding
    with mock.patch.object(collect_data, "sample_decode_count_correct", stub, create=True), \
            mock.patch.object(decoding, "sample_decode_count_correct", stub):
        yield


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


@contextlib.contextmanager
def cut_open(root, cut):
    """Kills the run around its n-th opening of a file for writing under root."""
    import builtins
    real = builtins.open
    state = dict(n=0, hit=False)

    def fake(file, mode="r", *a, **k):
        inside = False
        try:
            inside = pathlib.Path(os.fspath(file)).resolve().is_relative_to(root) and any(m in mode for m in "wax+")
        except TypeError:
            pass
        if inside and cut is not None and cut["where"].startswith("open"):
            state["n"] += 1
            if state["n"] - 1 == cut["batch"]:
                state["hit"] = True
                if cut["where"] == "open after":
                    real(file, mode, *a, **k).close()
                raise Interrupted()
        return real(file, mode, *a, **k)
    with mock.patch.object(builtins, "open", fake), mock.patch.object(io, "open", fake):
        yield state


class scratch:
    def __enter__(self):
        self.t = tempfile.TemporaryDirectory(prefix="cd_")
        return pathlib.Path(self.t.name).resolve()

    def __exit__(self, *a):
        self.t.cleanup()


def tag_circuit(i):
    """A tiny circuit identifying problem i."""
    return stim.Circuit(f"X_ERROR(0.25) {i}\nM {i}\nDETECTOR rec[-1]\nOBSERVABLE_INCLUDE(0) rec[-1]")


@st.composite
def descs(draw):
    d = draw(st.sampled_from([3, 4, 7, 8, 12, 1, 19, 20]))
    return dict(data_width=draw(st.sampled_from([d, 4, 2, 16])), data_height=draw(st.sampled_from([d, 6, 24])), code_distance=d,
                num_qubits=draw(st.sampled_from([60, 240, 17, 97, 2 * d * d - 1])), rounds=draw(st.sampled_from([3 * d, 12, 36, 5])),
                noise=draw(st.sampled_from([0.001, 0.0001, 1e-5, 0.003, 0.03, 0.1 + 0.2, 3e-7, 0.5, 0.0]) | st.floats(1e-9, 0.5)),
                circuit_style=draw(st.sampled_from(STYLES)), preserved_observable=draw(st.sampled_from("HVXZ")),
                decoder=draw(st.sampled_from(["internal", "internal_correlated", "pymatching"])))


def desc_of(d):
    from collect_data import DecodingProblemDesc
    return DecodingProblemDesc(**d)


FIELDS = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance",
          "num_qubits", "num_shots", "num_correct", "total_processing_seconds", "decoder", "version"]


def key_of_desc(d):
    """Identity of a problem description, from a dict or an object."""
    g = (lambda k: d[k]) if isinstance(d, dict) else (lambda k: getattr(d, k))
    return (int(g("data_width")), int(g("data_height")), int(g("code_distance")), int(g("num_qubits")), int(g("rounds")),
            float(g("noise")), str(g("circuit_style")), str(g("preserved_observable")), str(g("decoder")))


def parse_csv(text):
    """(number of header lines, rows as dicts); every non-empty line must be the header or a complete row."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    else:
        if text:
            raise Violation("the file does not end with a complete line")
    head = ",".join(FIELDS)
    headers = sum(1 for l in lines if l == head)
    rows = []
    for i, l in enumerate(lines):
        if l == head:
            if i:
                raise Violation(f"header repeated on line {i + 1}")
            continue
        v = l.split(",")
        if len(v) != len(FIELDS):
            raise Violation(f"malformed row {l!r}")
        rows.append(dict(zip(FIELDS, v)))
    return headers, rows
