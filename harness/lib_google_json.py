"""What google.protobuf.json_format promises."""


class ParseError(Exception):
    pass


def MessageToJson(message, **options):
    return __fn__("json text", "str", message.value)


def Parse(text, message, ignore_unknown_fields=False, descriptor_pool=None, max_recursion_depth=100):
    x = __unfn__(text if isinstance(text, str) else bytes(text).decode(), "json text")
    if x is None:
        raise ParseError("malformed JSON")
    message.value = x[0]
    return message
