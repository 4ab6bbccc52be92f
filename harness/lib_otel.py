"""What the instrumentation uses of the OpenTelemetry API; the providers are the driver's."""


class TextMapPropagator:
    pass


class Setter:
    pass


class DefaultSetter:
    def set(self, carrier, key, value):
        carrier[key] = value


default_setter = DefaultSetter()
AttributeValue = object


class SpanKind:
    CLIENT = "client"
    SERVER = "server"


class Span:
    pass


class TracerProvider:
    pass


class MeterProvider:
    pass


class SpanContext:
    def __init__(self, is_valid):
        self.is_valid = is_valid


class NoSpan(Span):
    """The span that is current when none is."""

    __identity__ = True

    def get_span_context(self):
        return SpanContext(False)


NO_SPAN = NoSpan()
CURRENT = []


def get_current_span(context=None):
    return CURRENT[len(CURRENT) - 1] if CURRENT else NO_SPAN


def get_tracer_provider():
    return PROVIDERS[0]


def get_meter_provider():
    return PROVIDERS[1]


def get_global_textmap():
    return PROVIDERS[2]


PROVIDERS = [None, None, None]


class BaseInstrumentor:
    def instrument(self, **kwargs):
        self._instrument(**kwargs)

    def uninstrument(self, **kwargs):
        self._uninstrument(**kwargs)
