"""pathflow: a path-sensitive dataflow analyser for the djgroen/flee sources.

Nothing here imports or runs code from the analysed tree: every module is read
as text and parsed with the standard library's ast module.
"""
