from vf.broken import there_is_no_such_name  # noqa
