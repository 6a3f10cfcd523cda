NA['C27'] = ('Optimality of a greedy/heuristic segmentation and correctness of statistically extracted nouns depend on the '
             'learned scores; there is no static specification to decide.')
