import there_is_no_such_module  # noqa
