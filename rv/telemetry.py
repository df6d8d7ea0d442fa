"""What the library emits: every log record, span and metric point of a case."""

from __future__ import annotations

import logging
import traceback
from collections import Counter
from typing import Any

_state: dict[str, Any] = {}

STANDARD = set(vars(logging.makeLogRecord({}))) | {"message", "asctime", "taskName"}


class Capture(logging.Handler):
    def __init__(self) -> None:
        super().__init__(level=1)
        self.records: list[tuple[logging.LogRecord, str]] = []

    def emit(self, record: logging.LogRecord) -> None:
        self.records.append((record, render(record)))


def render(record: logging.LogRecord) -> str:
    """All that a log sink could print of a record."""
    parts = []
    try:
        parts.append(record.getMessage())
    except Exception as e:
        parts.append(f"(broken log call: {record.msg!r}: {e!r})")
    args = record.args if isinstance(record.args, tuple) else (record.args,)
    for a in args:
        if isinstance(a, (str, bytes, int, float, dict, list, tuple)):
            parts.append(repr(a))
    if record.exc_info and record.exc_info[0] is not None:
        parts.append("".join(traceback.format_exception(*record.exc_info)))
    if record.stack_info:
        parts.append(record.stack_info)
    for k, v in vars(record).items():
        if k not in STANDARD:
            parts.append(f"{k}={v!r}")
    return "\n".join(parts)


def span_text(s: Any) -> str:
    parts = [s.name, repr(dict(s.attributes or {})), repr(s.status.description)]
    for e in s.events:
        parts.append(f"{e.name} {dict(e.attributes or {})}")
    for link in s.links:
        parts.append(repr(dict(link.attributes or {})))
    return "\n".join(parts)


def setup() -> None:
    """Once per process: real SDK providers with in-memory sinks."""
    if _state:
        return
    from opentelemetry import metrics, trace
    from opentelemetry.sdk.metrics import Counter as C, Histogram, MeterProvider, UpDownCounter
    from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.trace.export import SimpleSpanProcessor
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

    delta = AggregationTemporality.DELTA
    reader = InMemoryMetricReader(preferred_temporality={C: delta, UpDownCounter: delta, Histogram: delta})
    metrics.set_meter_provider(MeterProvider(metric_readers=[reader]))
    exporter = InMemorySpanExporter()
    provider = TracerProvider(shutdown_on_exit=False)
    provider.add_span_processor(SimpleSpanProcessor(exporter))
    trace.set_tracer_provider(provider)
    _state.update(reader=reader, exporter=exporter)


class Telemetry:
    """Use around one simulation: with Telemetry() as t: ..."""

    def __enter__(self) -> "Telemetry":
        setup()
        _state["exporter"].clear()
        _state["reader"].get_metrics_data()
        self.capture = Capture()
        self.loggers = []
        for name in ("docket", "asyncio", "uncalled_for"):
            lg = logging.getLogger(name)
            self.loggers.append((lg, lg.level, lg.propagate, lg.disabled))
            lg.addHandler(self.capture)
            lg.setLevel(1 if name != "asyncio" else logging.WARNING)
            lg.propagate = False
            lg.disabled = False
        self.manager_disable = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a: Any) -> None:
        for lg, level, propagate, disabled in self.loggers:
            lg.removeHandler(self.capture)
            lg.setLevel(level)
            lg.propagate = propagate
            lg.disabled = disabled
        logging.disable(self.manager_disable)

    @property
    def records(self) -> list[tuple[logging.LogRecord, str]]:
        return self.capture.records

    def spans(self) -> list[Any]:
        return list(_state["exporter"].get_finished_spans())

    def metrics(self) -> list[tuple[str, dict[str, Any], Any]]:
        """(instrument, attributes, value) since the start or the last call;
        histograms give (count, sum)."""
        out = []
        data = _state["reader"].get_metrics_data()
        if data is None:
            return out
        for rm in data.resource_metrics:
            for sm in rm.scope_metrics:
                for m in sm.metrics:
                    for p in m.data.data_points:
                        v = p.value if hasattr(p, "value") else (p.count, p.sum)
                        out.append((m.name, dict(p.attributes or {}), v))
        return out


def totals(points: list[tuple[str, dict[str, Any], Any]], *labels: str) -> Counter:
    """Sum of counters by (instrument, values of the given labels)."""
    c: Counter = Counter()
    for name, attrs, v in points:
        c[(name, *(attrs.get(x) for x in labels))] += v if not isinstance(v, tuple) else v[0]
    return c
