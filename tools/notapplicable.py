na_reason = {}
