PENDING = {}
