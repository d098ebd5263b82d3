"""C39: arguments by position, by name or left out mean what is documented."""
from pbt import arguments
from pbt.arguments import RULE  # noqa: F401

arguments.ways(
    __name__, *arguments.ENTRIES, quick=5000, thorough=60000, shards=8
)
