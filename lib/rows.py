"""Rows of delimited text."""


def parse(fmt, s):
    """the state machine of spec/Report.tla"""
    sep = {"csv": ",", "tsv": "\t", "ascii": "\x1f"}[fmt]
    rows, row, cell, st = [], [], "", "start"
    for ch in s:
        if st == "quoted":
            if ch == '"':
                st = "quote"
            else:
                cell += ch
        elif st == "quote" and ch == '"':
            cell, st = cell + '"', "quoted"
        elif ch == sep or ch == "\n":
            row.append(cell)
            cell, st = "", "start"
            if ch == "\n":
                rows.append(row)
                row = []
        elif fmt == "csv" and st == "start" and ch == '"':
            st = "quoted"
        elif fmt == "csv" and (st == "quote" or ch in '"\r'):
            if ch != "\r":
                return None
        else:
            cell, st = cell + ch, "plain"
    return rows if st == "start" and not row else None
