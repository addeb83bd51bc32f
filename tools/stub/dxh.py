def evaluate_function_at_points(function, points):
    return function.eval_points(points[0] if points.shape[0] == 3 else points[:, 0])[:, None]
