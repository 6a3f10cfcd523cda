"""Static analyser for lovit/soynlp: nothing in here imports or runs soynlp."""
