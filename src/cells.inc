// generated by tools/gen_cells.py: kind, generic, precision, order, bound per region (0: too few samples, the global bound)
{ 'C', false, 1, 1, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 1, 2, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 1, 3, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.29, 6, 8.3, 7.86, 6.82, 6.64 } },
{ 'C', false, 1, 4, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 8.43, 7.34, 8.06, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 1, 5, { 6, 6, 6.98, 6, 6.86, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.88, 6.63, 6.42, 6.2 } },
{ 'C', false, 1, 6, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7.17, 6, 6.81, 6, 6.65, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 2, 2, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 10.4, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 2, 3, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 2, 4, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 2, 5, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', false, 2, 6, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 1, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 2, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 3, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.32, 7.79, 12.9, 10.7, 6.01, 6.08 } },
{ 'C', true, 1, 4, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7.78, 6.43, 7.48, 6, 7.77, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 5, { 6, 6, 6.57, 6, 6.41, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 10.1, 10.6, 6, 6 } },
{ 'C', true, 1, 6, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.04, 6, 9.63, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 7, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.56, 6, 7.14, 6, 6.17, 6, 6, 6, 6, 6, 6, 6, 6, 6, 73, 51.8, 101, 71.7, 115, 100, 130, 122 } },
{ 'C', true, 1, 10, { 1.4e+03, 8.99, 396, 10.6, 42, 6, 6, 6, 6, 6, 8.59, 7.82, 9.22, 6.62, 8.24, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.67, 7.12, 6.62, 6.33 } },
{ 'C', true, 1, 20, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 34, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 60, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 120, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 400, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'C', true, 1, 2000, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'R', false, 0, 2, { 6, 6.3, 6, 6.55, 6, 6, 6.12, 6.1, 7.65, 6, 6, 6.16, 6, 6.9, 6, 6, 6, 6, 6.2, 6, 6, 6, 6.72, 6, 6, 6, 6, 6.22 } },
{ 'R', false, 1, 2, { 6, 6, 6, 6, 6, 6, 21.1, 6.64, 21.1, 13, 6, 15.8, 6, 18.9, 6, 15.1, 10.9, 10.2, 12.5, 6, 6, 6, 6, 6, 6, 6, 6, 6.1 } },
{ 'R', false, 1, 3, { 6, 6, 6, 6, 6, 6, 17.8, 6, 20.6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 10.5, 6, 7.71, 8.2 } },
{ 'R', false, 1, 4, { 6, 6, 6, 6, 6, 6, 12.4, 6, 241, 6, 6, 6, 6, 6, 6, 6, 146, 6, 6, 6, 6, 6, 6, 6, 6.23, 6, 12.2, 12.4 } },
{ 'R', false, 2, 2, { 6, 6, 6, 6, 6, 6, 7.68, 6, 8, 6, 6, 6.5, 6, 7.44, 6, 6, 6, 6, 6.02, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 1, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 2, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 8.43, 10.5, 10.5, 6.31, 6.31 } },
{ 'S', true, 1, 3, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 4, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 23.2, 22.3, 30.8, 42.8, 55.2, 54.5, 33.8, 34.1 } },
{ 'S', true, 1, 5, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 6, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 11.9, 16.6, 22.3, 24.2, 15.2, 15.1 } },
{ 'S', true, 1, 7, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 8.23, 6, 13.7, 15.2, 16.4, 15.9 } },
{ 'S', true, 1, 10, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.01, 6.28, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 12.8, 11.9, 20.8, 20.4, 23, 22 } },
{ 'S', true, 1, 20, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 8.25, 8.51, 10.4, 10.8 } },
{ 'S', true, 1, 34, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 60, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 120, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 400, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'S', true, 1, 2000, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'Z', false, 0, 2, { 6, 6, 6, 6, 6, 6.11, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7.68, 6, 6, 6, 6, 6, 7.51, 6, 6, 6, 6, 6, 6, 6, 6, 9.39, 9.59, 6, 6, 6.79, 0, 6, 8.82, 9.03, 6, 6, 6, 6, 6, 6.55, 6.69, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.21, 6.44, 6, 6, 6.58, 6, 6, 6, 6, 6 } },
{ 'Z', false, 1, 2, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.03, 20.2, 6, 6, 6, 6, 6, 11.7, 18.1, 6, 6, 6, 6, 6, 15.8, 6, 6, 6.03, 6, 6, 6, 18.6, 0, 6, 6, 6, 6, 6, 15.1, 6, 6, 6, 6, 6, 6, 6.71, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.13, 6, 6, 6.44, 6.52, 6, 6, 6.5, 6.17, 6.6, 6.41, 6.4, 6, 6, 6, 6, 6 } },
{ 'Z', false, 1, 3, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7.79, 7.68, 6, 6, 6, 6, 16.2, 6.17, 6, 6, 6, 6, 6, 19.8, 6, 13.1, 8.75, 6, 6, 6, 6, 6, 21.8, 14.7, 7.94, 8.69, 6, 0, 6, 13, 9.19, 6.31, 6.01, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.29, 6, 6, 7.18, 7.55, 8.21, 7.86, 8.5, 6.75, 6.86, 8.76, 7.94, 9.72, 8.31, 7.97, 7.08, 8.18, 6, 6, 6 } },
{ 'Z', false, 1, 4, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 10, 7.66, 6, 6, 6, 6, 11.4, 6, 6.37, 6, 6, 6, 6, 153, 6, 8.11, 6.82, 6, 6, 6, 251, 6, 16.5, 13.5, 8.05, 7.87, 6, 0, 6, 10.9, 10.4, 7.04, 6.68, 6, 120, 6, 8.37, 7.33, 6, 6, 6, 46.5, 6, 6.12, 6, 6, 6, 6, 6, 6.13, 6, 6, 6.32, 6.52, 6, 6, 9.62, 9.06, 10.4, 10, 11.2, 9.06, 7.67, 14.5, 12.6, 13.3, 13.6, 13.9, 10.2, 10.5, 6, 6, 6 } },
{ 'Z', false, 1, 5, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.03, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 9.5, 9.81, 8.93, 8.38, 6, 0, 6, 8.59, 8.36, 8.87, 7.73, 6, 6, 6, 7.68, 7.19, 7.22, 6, 6, 6, 6.6, 6.56, 6, 6, 6, 6, 6, 6.28, 6.79, 6.5, 6.34, 7.69, 6.62, 6, 11.3, 10.8, 11.2, 11.9, 11.8, 9.76, 9.13, 15.6, 14.9, 14.8, 14, 14.4, 13.5, 13.7, 6, 6, 6 } },
{ 'Z', false, 1, 6, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 8.14, 6, 6, 6, 6, 6, 6.65, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 10.5, 10.3, 7.06, 6.98, 6.27, 0, 6, 9.43, 9.3, 6, 6.41, 6.4, 6, 6, 6.1, 6, 6, 6, 6, 6, 7.02, 6, 6, 6, 6, 6, 6.51, 6.88, 7.81, 6.55, 6.83, 7.46, 6, 6.79, 13.4, 12.1, 12, 12.5, 13.2, 11.1, 12, 18.4, 18.5, 17.6, 17, 17.6, 12.5, 16.5, 6, 6, 6 } },
{ 'Z', false, 2, 2, { 6, 6, 6, 6, 6.69, 6, 6, 6, 6, 6, 6, 7.27, 6, 6, 6.73, 6, 6, 6, 8.34, 6, 6, 6, 6, 6, 6, 6.92, 6, 11.9, 8.76, 6.27, 6, 6, 7.97, 6, 12.3, 6, 10.9, 9.12, 6, 6, 8.75, 6, 6, 21, 18.2, 7.67, 6, 12.7, 0, 6, 15.7, 9.95, 6.9, 6.84, 9.13, 6, 6.04, 7.34, 6, 6, 7.1, 6.37, 6, 6, 6.02, 6, 6, 6, 6.01, 6, 7.4, 6.21, 7.77, 8.14, 8.19, 8.21, 6, 9.04, 8.46, 8.47, 8.51, 9.29, 9.36, 9.4, 11.5, 6.74, 11.5, 10, 6.97, 10.8, 6, 6, 6, 6 } },
{ 'Z', false, 2, 3, { 6, 6.12, 6.39, 6.57, 7.02, 6, 6, 6, 6, 6, 6.06, 6.83, 6, 6, 6.17, 6, 6, 6, 8.28, 7.79, 6, 12.9, 12.4, 6, 6.48, 7.48, 6.72, 13.5, 10.3, 9.9, 6, 6.49, 7.44, 6, 9.6, 6, 27.1, 15.8, 6.64, 6.27, 6, 6, 6, 50.6, 29.2, 9.69, 6, 6, 0, 6, 25.8, 13.7, 7.65, 7.42, 6, 6, 6, 7.23, 7.67, 6, 7.29, 6, 6, 6, 6.71, 6, 6, 6, 6, 6.3, 8.2, 8.03, 7.94, 7.95, 9.46, 7.6, 6.51, 12.2, 12.3, 12.1, 11.3, 15.4, 11.3, 12.4, 14.4, 8.91, 15.1, 15.4, 9.31, 12.6, 8.75, 6, 6, 6 } },
{ 'Z', false, 2, 4, { 6.14, 6, 6.24, 6.8, 7.02, 6, 6, 6, 6, 7.22, 6, 7.29, 6.1, 6, 6, 6.54, 6, 6.43, 9.21, 8.29, 6.07, 18.5, 11, 6, 6, 7.56, 6.86, 15.4, 8.61, 9.13, 6, 6.9, 7.86, 6, 7.7, 6, 9.8, 7.73, 6.94, 6.33, 6, 6, 6, 29.7, 16.1, 9.12, 8.8, 12, 0, 6, 16.2, 11.6, 9.02, 13, 12.3, 6, 6, 9.58, 7.64, 6.91, 9.93, 10.1, 6, 6, 8.48, 6, 8.25, 6, 7.48, 7.92, 9.62, 9.56, 10, 9.83, 9.25, 9.31, 8.63, 13.7, 13.5, 14.7, 15.5, 15.9, 13.1, 13.7, 24.6, 13.1, 21.4, 18.9, 12, 18.5, 13.1, 6, 6, 6 } },
{ 'Z', false, 2, 5, { 6, 6, 7.29, 6.04, 7.24, 6, 6, 6.26, 6, 6, 7.19, 6.92, 6.83, 6, 6.13, 6.09, 6, 6.28, 9.31, 8.15, 6.04, 16.5, 12.6, 6, 6.42, 6.96, 7.06, 16.7, 6, 10.6, 6, 6.71, 7.58, 6, 6, 6, 45.5, 25.6, 6.86, 6, 6, 6, 6, 87.3, 50, 18.1, 9.02, 6, 0, 6, 49, 19.5, 15.8, 13.3, 6, 6, 6, 13.1, 14.4, 13, 12.8, 7.11, 6, 6.86, 10.4, 6.14, 10.2, 6, 8.45, 8.93, 10.8, 10.6, 11.9, 9.86, 11, 10.6, 8.85, 15.3, 16.9, 16.4, 17.9, 19.4, 16.8, 14.7, 19.4, 14.4, 24.3, 21.4, 13.9, 20, 14.8, 6, 6, 6 } },
{ 'Z', false, 2, 6, { 6, 6, 8.15, 6.13, 8.21, 6, 6, 6, 6, 6, 6.92, 7.91, 6, 6, 6, 6, 6, 6.85, 10, 7.4, 6.08, 45.1, 38.7, 6, 6.12, 7.29, 7.82, 43.5, 6, 33.1, 6, 7.74, 6.91, 6, 6, 6, 22.3, 6, 6.03, 6, 6, 6, 6, 30.8, 18.6, 9, 7.44, 11.7, 0, 6, 23.1, 18.6, 8.52, 11.8, 11.3, 6, 6, 14.4, 13.8, 7.76, 9.82, 9.61, 6, 8.5, 13, 6.87, 9.09, 6, 8.14, 13.2, 10.3, 12.4, 11.6, 10.2, 11.7, 10.7, 11.7, 18.4, 19.9, 20.8, 21.3, 19.9, 17.3, 16.7, 28, 19.5, 30.7, 28, 16.6, 25.2, 17.9, 6, 6, 6 } },
{ 'Z', true, 1, -168, {  } },
{ 'Z', true, 1, -150, { 102, 106, 109, 108, 1.09e+03, 798, 46.4, 40.4, 31.9, 32, 32.6, 245, 334, 0, 12.2, 0, 13.5, 0, 247, 0, 0, 0, 0, 9.75, 0, 172, 0, 0, 0, 0, 8.36, 0, 351, 0, 0, 0, 0, 8.93, 0, 199, 0, 0, 0, 7.48, 10.6, 14.4, 642, 0, 0, 0, 0, 11.9, 0, 446, 0, 0, 0, 12.6, 14.2, 15, 267, 288, 0, 22.1, 22.8, 22.3, 22.5, 229, 278, 6, 36.7, 33.7, 32.3, 30.3, 399, 0, 21.1, 118, 102, 105, 0, 341, 0, 0, 54.8, 55, 54.9, 56.4, 442, 0, 54.4 } },
{ 'Z', true, 1, -130, { 112, 88.2, 91.8, 84.5, 1.31e+03, 0, 41.1, 33.9, 0, 29.1, 0, 224, 0, 0, 0, 0, 13.4, 0, 284, 0, 0, 6, 0, 0, 0, 255, 0, 0, 6, 0, 9.04, 0, 192, 0, 0, 0, 0, 0, 0, 212, 0, 0, 0, 6.78, 9.51, 13.5, 628, 0, 0, 0, 0, 11.1, 0, 171, 0, 0, 7.48, 13.6, 14.5, 0, 354, 0, 0, 22.8, 21.8, 24.1, 23.2, 319, 357, 6, 37.1, 29.5, 31.7, 30.1, 252, 0, 0, 115, 0, 98.5, 0, 359, 0, 0, 48.8, 0, 50, 0, 339, 0, 48.5 } },
{ 'Z', true, 1, -100, { 61.4, 64.2, 85.6, 75.3, 744, 660, 39.7, 28.9, 37.7, 33.8, 29.5, 167, 386, 20.8, 12.6, 12.2, 16.2, 0, 311, 0, 0, 6, 0, 10.5, 0, 189, 0, 0, 6, 6.76, 11, 0, 215, 0, 0, 6, 6.12, 9.16, 0, 259, 0, 0, 6, 6.96, 9.72, 14.9, 408, 0, 0, 6, 7.13, 9.44, 12.9, 152, 0, 0, 9.92, 11.4, 12.4, 14.3, 258, 153, 6, 23.8, 25.3, 24.6, 25, 172, 509, 6, 38.9, 33.8, 31.2, 34.8, 159, 0, 21, 70.1, 96.9, 95.5, 70.5, 862, 0, 35.4, 41.6, 42.3, 42.3, 44.4, 622, 0, 41.8 } },
{ 'Z', true, 1, -80, { 58.7, 62.6, 69.3, 66.9, 526, 0, 40.7, 32.6, 0, 33.2, 0, 85.8, 0, 0, 0, 0, 13.2, 0, 172, 0, 0, 6, 0, 11.9, 0, 169, 0, 0, 6, 0, 10.7, 0, 176, 0, 0, 0, 0, 9.63, 0, 222, 0, 0, 6, 8.02, 10.4, 15.4, 401, 0, 0, 6, 0, 10.8, 0, 250, 0, 0, 8.58, 10.9, 11.8, 0, 154, 0, 0, 26.2, 29.4, 26.7, 21.7, 284, 248, 6, 34.9, 30.1, 31.1, 31.3, 99.3, 0, 0, 59.1, 0, 61.6, 0, 410, 0, 0, 33.5, 32.4, 33.1, 0, 156, 0, 33 } },
{ 'Z', true, 1, -60, { 59.3, 54.2, 50.6, 55.9, 466, 0, 39.2, 32.6, 0, 31.7, 0, 134, 0, 0, 0, 0, 14, 0, 125, 0, 0, 6, 0, 9.56, 0, 83.8, 0, 0, 6, 0, 9.27, 0, 112, 0, 0, 0, 0, 7.96, 0, 122, 0, 0, 6, 6.08, 9.06, 12.8, 266, 0, 0, 6, 7.55, 10.7, 0, 99, 0, 0, 7.35, 11.4, 12.7, 0, 222, 0, 0, 21, 22.2, 25, 23.2, 205, 193, 6, 31.7, 27.7, 38.2, 31.7, 71.1, 0, 0, 48.2, 0, 55, 0, 403, 0, 0, 27.2, 0, 27.4, 0, 116, 0, 26.5, 6 } },
{ 'Z', true, 1, -40, { 43.6, 59.9, 54.4, 51.1, 322, 0, 32.7, 30.1, 0, 28.8, 0, 111, 0, 0, 0, 0, 14.1, 0, 124, 0, 0, 6, 0, 9.28, 0, 126, 0, 0, 6, 0, 9.71, 0, 78.9, 0, 0, 0, 0, 9.79, 0, 115, 0, 0, 6, 6.9, 9.96, 14.4, 220, 0, 0, 6, 6.73, 9.96, 0, 122, 0, 0, 8.7, 10.8, 11.5, 0, 131, 0, 0, 25.2, 28.4, 25.9, 22.2, 151, 181, 6, 33.4, 34.2, 32, 29.8, 52.9, 0, 0, 47.7, 0, 47.6, 0, 193, 0, 0, 12.2, 0, 17.4, 0, 93.8, 0, 14, 6 } },
{ 'Z', true, 1, -20, { 39.3, 31.6, 43.3, 32.3, 77.2, 0, 23.8, 30.5, 27.3, 28.2, 0, 66.7, 0, 0, 0, 0, 13.7, 0, 87.3, 0, 0, 6, 0, 9.35, 0, 70.6, 0, 0, 6, 0, 9.13, 0, 86.9, 0, 0, 0, 0, 8.96, 0, 58.2, 0, 0, 6, 6.96, 9.85, 14, 156, 0, 0, 6, 7.53, 10, 0, 88.8, 0, 0, 8.34, 10.2, 13.5, 0, 73, 0, 6, 22, 26.3, 24.6, 22, 88.8, 111, 6, 26.6, 29.1, 26.3, 29.1, 81.9, 0, 18.8, 41.3, 0, 44.7, 0, 134, 0, 0, 6, 6, 6, 6, 6, 0, 6, 6, 6 } },
{ 'Z', true, 1, -10, { 6, 6, 7.43, 8.64, 41.8, 49.2, 6, 24.5, 25.6, 23.2, 22.2, 66.8, 62, 16.5, 16.5, 12.3, 12.3, 14.1, 77, 53.5, 6, 6, 7.1, 9.19, 13, 66.3, 44.1, 6, 6, 6.26, 9.61, 12.8, 37.3, 47.5, 6, 6, 6, 8.11, 11.4, 37.1, 48.9, 0, 6, 6.83, 9.5, 13.2, 40.5, 46.9, 0, 6, 8, 10.7, 13.8, 58.2, 34.8, 6, 8.21, 10.6, 13.4, 13.4, 48.5, 41.7, 6, 22.5, 23.7, 22.2, 22, 29.8, 65.7, 6.26, 25.4, 23.6, 27.3, 24, 45.9, 102, 18.1, 6, 7.27, 8.08, 9.94, 44, 51.4, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'Z', true, 1, -5, { 6, 6, 6, 6, 6, 6, 6, 19.8, 15, 20.7, 16.6, 36.3, 0, 0, 11.5, 0, 12.1, 0, 29.2, 0, 0, 6, 0, 9.85, 0, 28.8, 0, 0, 6, 6, 9.06, 0, 26.5, 0, 0, 6, 0, 8.7, 0, 18.1, 0, 0, 6, 6.78, 9.07, 12.8, 37.9, 0, 0, 6, 7.11, 8.9, 0, 24.5, 0, 0, 7.73, 10.2, 12.8, 0, 26.9, 0, 6, 20, 19.6, 18.2, 19.4, 20, 32.1, 6.33, 20.1, 18.8, 18.4, 16.9, 34.6, 0, 9.86, 6, 0, 6, 0, 6, 0, 0, 6, 6, 6, 6, 6, 0, 6, 6, 6, 6 } },
{ 'Z', true, 1, -3, { 6, 6, 6, 6, 6, 0, 0, 0, 0, 8.95, 0, 22.6, 0, 0, 0, 0, 0, 0, 18.4, 0, 0, 0, 0, 0, 0, 20, 0, 0, 6, 0, 0, 0, 13.8, 0, 0, 0, 0, 0, 0, 13.2, 0, 0, 0, 6, 7.45, 10.2, 20.1, 0, 0, 0, 0, 0, 0, 14.5, 0, 0, 6.35, 0, 10.6, 0, 15.8, 0, 0, 14.4, 16.1, 15.7, 16.2, 27.5, 0, 0, 14.4, 0, 11, 0, 21.1, 0, 0, 0, 0, 6, 0, 6, 0, 0, 6, 0, 6, 0, 6, 0, 6, 6, 6 } },
{ 'Z', true, 1, -2, { 6, 6, 6, 0, 6, 0, 0, 0, 0, 6, 0, 7.98, 0, 0, 0, 0, 0, 0, 15.7, 0, 0, 0, 0, 0, 0, 12.8, 0, 0, 6, 0, 0, 0, 16, 0, 0, 0, 0, 0, 0, 16.1, 0, 0, 0, 6, 8.2, 10.2, 21.4, 0, 0, 0, 0, 0, 0, 17.6, 0, 0, 7.36, 0, 9.22, 0, 15.3, 0, 0, 19.6, 21.6, 15.1, 13.8, 17, 0, 0, 16.4, 0, 6.61, 0, 10.7, 0, 0, 0, 0, 0, 0, 6, 0, 0, 6, 0, 6, 0, 6, 0, 6, 6, 6 } },
{ 'Z', true, 1, -1, { 6, 0, 6, 0, 7.68, 0, 0, 0, 0, 6.69, 0, 7.55, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 8.14, 0, 0, 6, 0, 0, 0, 8.35, 0, 0, 0, 0, 0, 0, 8.48, 0, 0, 0, 6, 6.09, 8.32, 15.1, 0, 0, 0, 0, 0, 0, 15.5, 0, 0, 6, 0, 6, 0, 9.15, 0, 0, 6, 6, 6, 6, 7.04, 0, 0, 6, 0, 6, 0, 6, 0, 0, 0, 0, 0, 0, 6, 0, 0, 6, 0, 6, 0, 6, 0, 6, 6, 6 } },
{ 'Z', true, 1, 0, { 0, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 6, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0, 0, 0, 6, 0, 6 } },
{ 'Z', true, 1, 1, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 0, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6 } },
{ 'Z', true, 1, 2, { 6, 6, 6, 6, 6.94, 6, 6, 6, 6, 6.58, 6, 6.89, 6.29, 6, 6, 6, 6, 6, 6, 7.45, 7.07, 6, 6, 6, 6, 6, 8.88, 25.8, 7.4, 6, 6, 6, 6, 14.6, 26.4, 6, 6, 6, 6, 6, 23.4, 0, 6, 8.23, 9.94, 6.76, 6, 31, 0, 6, 7.59, 8.16, 6.12, 6, 21.8, 0, 6.36, 6.49, 6, 6, 6, 9.95, 6, 6.74, 6, 6, 6, 6, 6, 6.83, 6, 6, 6.07, 6, 7.1, 6.43, 6, 9.04, 9.01, 8.5, 8.53, 9.35, 8.91, 7.45, 10.5, 7.85, 9.54, 9.54, 10.4, 0, 6, 6, 6, 6 } },
{ 'Z', true, 1, 3, { 6.03, 6, 6.14, 6, 6.57, 6.09, 6, 6, 6, 6, 6.1, 6.71, 6.21, 6, 6, 6, 6, 6, 6, 6.14, 6.83, 9.96, 8.04, 6, 6, 6.31, 6, 21.5, 8.43, 8.62, 6, 6.06, 6.1, 6, 25.6, 6, 20.9, 13.4, 6.69, 6, 6, 0, 6, 34.6, 22.5, 9.82, 6.32, 6, 0, 6, 19.4, 13.7, 8.71, 9.32, 6, 0, 6, 6.19, 8.38, 7.19, 7.84, 6, 6.18, 8.62, 6.86, 6.58, 7.04, 6, 6, 6, 8.86, 9.08, 8.5, 7.67, 9.03, 6.97, 6.27, 11.9, 10.7, 12.3, 11.1, 12.3, 9.44, 11.3, 12.6, 13, 13, 12.3, 13, 0, 6.59, 6, 6, 6 } },
{ 'Z', true, 1, 4, { 6, 6, 6, 6, 6, 6.35, 6, 6, 6, 6, 6, 7.79, 6, 6, 6, 6, 6, 6, 6, 6, 8.05, 11.8, 8.24, 6, 6, 6.16, 6, 16.8, 7.71, 7.08, 6, 6.4, 9.08, 6.3, 200, 6, 13.4, 7.51, 6.4, 6, 6, 0, 6, 23.7, 17.1, 9.79, 6.22, 6.95, 0, 6, 12.7, 12, 8.23, 8.25, 6.5, 0, 6, 11.7, 8.75, 6.68, 6.81, 6, 68.3, 8.25, 8.16, 7.16, 6.24, 6, 6, 6, 8.62, 8.68, 8.54, 9.29, 10.3, 7.66, 8.06, 15.5, 12.9, 14, 15.4, 17.8, 12.9, 11.7, 19.7, 22.2, 20.2, 20.1, 18.8, 0, 10.3, 6, 6, 6 } },
{ 'Z', true, 1, 5, { 6, 6, 6, 6, 6.3, 6.18, 6, 6, 6, 6, 6, 6.42, 6, 6, 6, 6, 6, 6, 6.66, 6, 6, 7.6, 6, 6, 6, 6.51, 6, 8.39, 6.43, 6, 6, 6.65, 7.16, 6, 6.46, 6, 6, 6, 6.12, 6, 6, 0, 6, 13.7, 12.8, 13.3, 8.5, 6, 0, 6, 12.8, 12.7, 10.9, 13.1, 6, 0, 6, 9.25, 10.9, 8.6, 8.97, 6, 6, 10.7, 8.54, 7.85, 7.39, 6, 6.5, 8.59, 10.1, 9.98, 9.84, 8.39, 9.82, 8.64, 9.54, 15.9, 14.6, 18.2, 18, 16.9, 14.8, 15.2, 24.4, 21.3, 22.5, 23.4, 24.9, 0, 11.6, 6, 6, 6 } },
{ 'Z', true, 1, 6, { 6, 6, 6, 6, 6.25, 6, 6, 6, 6, 6, 6, 6.41, 6, 6, 6, 6, 6, 6, 6.78, 6, 6, 11, 8.79, 6, 6, 6.53, 6, 10, 8.2, 6.36, 6, 7.37, 7.37, 6, 7.73, 6, 6, 6, 6.75, 6, 6, 0, 6, 13.6, 14.8, 9.59, 6.81, 9.86, 0, 6, 14.1, 12.4, 9.08, 9.38, 9.9, 0, 6, 9.67, 8.38, 6, 7.92, 7.77, 6, 8.46, 8.44, 7.2, 6, 6, 6, 6.84, 11.3, 9.32, 10.1, 10.3, 11, 8.27, 9.72, 18.9, 19, 21.7, 17.1, 20.2, 17.9, 17.6, 26.9, 28.6, 26.8, 26.9, 32.1, 0, 15.4, 6, 6, 6 } },
{ 'Z', true, 1, 7, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.94, 6, 7.98, 6, 6.41, 7.27, 8.48, 7.34, 6.8, 8.76, 7.05, 7.38, 8.21, 7.39, 6.75, 8.91, 12.3, 10, 11.3, 10.7, 11.9, 11, 11.2, 7.79, 7.89, 10.6, 13.5, 42.4, 37.5, 6, 6, 6.92, 10.5, 13.2, 20.7, 33.5, 0, 8.18, 8.56, 9.95, 12, 32.1, 27.3, 6.84, 23.7, 16, 10.9, 9.56, 8.16, 6.88, 22.2, 11.6, 10.1, 6, 7.63, 6, 6.45, 15.5, 10, 11, 10.3, 10.9, 11.3, 10.7, 10.1, 21.8, 22, 24.1, 21.1, 25.3, 21.1, 18.1, 22.8, 34.4, 22.2, 34.2, 20.3, 27, 23.1, 6.76, 6, 6 } },
{ 'Z', true, 1, 10, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7.4, 6, 6, 6, 7.03, 6, 6, 6, 6, 6.88, 6.99, 6, 6.91, 7.46, 7.88, 6, 7, 8.43, 7.29, 8.87, 9.27, 12.7, 23.1, 42.1, 6.06, 8.32, 6, 7.23, 8.56, 16, 29.7, 0, 8.25, 9.06, 10.3, 12, 18.5, 30.7, 8.49, 15.4, 16.3, 7.79, 9.66, 6, 8.72, 24.1, 10.9, 8.71, 6, 6, 6, 8.41, 16.4, 8.15, 12.1, 7.73, 12.4, 7.37, 11.4, 12.2, 29.9, 32, 18.4, 30.5, 22.1, 26.4, 33.6, 47, 69.5, 42.9, 64.8, 41.3, 47.8, 44, 6, 6, 6 } },
{ 'Z', true, 1, 20, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.56, 8.2, 12.1, 13.8, 21.2, 36.6, 6, 6, 6, 7.07, 8.81, 17.2, 30.6, 0, 6, 9.21, 7, 14.7, 16.6, 30.5, 8.31, 16, 16, 8.09, 10.9, 6, 8.43, 25, 11.5, 7.45, 6, 6.65, 6, 8.97, 11, 8.5, 13.5, 7.67, 14.8, 7.19, 11.8, 14, 34.7, 35.4, 21.9, 40.7, 23.3, 31.1, 42.1, 81.8, 115, 72.6, 119, 70.8, 73.8, 76.5, 6, 6, 6 } },
{ 'Z', true, 1, 34, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7.27, 9.75, 10.4, 33.6, 42.8, 7.16, 7.16, 7.13, 7.12, 12.6, 17.1, 28.7, 0, 7.58, 8.26, 12, 11.9, 17.4, 30.2, 6.96, 24.9, 15.3, 11.4, 10.2, 6, 7.54, 23.8, 10.9, 7.32, 6, 10, 6, 8.66, 19, 14.6, 13.8, 7.46, 13.9, 7.96, 13.4, 15.2, 40.9, 37.2, 38.7, 38.8, 41, 30.4, 42.9, 132, 185, 114, 216, 119, 94.1, 140, 6.46, 6, 6 } },
{ 'Z', true, 1, 60, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 7.03, 6.67, 7.24, 10.2, 22.9, 27, 6, 6, 6.25, 12.4, 10.4, 13.6, 21.5, 0, 7.15, 7.97, 11.9, 13.5, 20.9, 22.9, 6.75, 16.4, 11.6, 12.8, 8.99, 6, 7.8, 14.7, 8.15, 11, 6, 8.66, 6, 9.57, 14.9, 13.7, 12.5, 15.2, 13.3, 8.14, 11.8, 13.5, 37.9, 42.2, 35.3, 39.2, 39.5, 32.1, 33.9, 241, 344, 197, 306, 234, 110, 210, 6, 6, 6 } },
{ 'Z', true, 1, 120, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.27, 6.91, 8.04, 10.2, 13.8, 25.9, 6.31, 7.33, 6, 6.15, 10.1, 12.6, 24.1, 0, 9.25, 8.47, 9.78, 12.4, 13, 20.6, 6.73, 9.39, 11.3, 12.1, 8.62, 6, 8.3, 15.6, 8.56, 6, 6, 9.33, 6, 8.91, 11.6, 14.3, 12.7, 8.38, 13.9, 10.3, 12.5, 13.4, 43.1, 41.3, 39.1, 36.9, 25.1, 32.5, 42.4, 548, 722, 469, 864, 490, 124, 543, 6, 6, 6 } },
{ 'Z', true, 1, 400, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6.86, 7.81, 9.18, 23.2, 23.6, 0, 6, 6.67, 10, 10.3, 12.2, 28, 0, 7.25, 8.54, 11.8, 12.2, 20.1, 23.9, 6.24, 15, 12.4, 10.6, 8.87, 8.35, 8.1, 17.2, 8.86, 9.88, 7.24, 8.69, 6, 8.04, 12.2, 13.2, 14.7, 14, 11.6, 14.1, 11.9, 15.2, 35.1, 37.5, 52.5, 48.6, 41.3, 33.7, 44.7, 704, 1.02e+03, 601, 1.07e+03, 716, 119, 675, 6.83, 6, 6 } },
{ 'Z', true, 1, 2000, { 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 8.41, 8.38, 9.66, 17.1, 23.8, 6, 6, 6, 7.3, 6.06, 12.7, 22.5, 0, 6, 8.19, 7.08, 12.7, 15.3, 24.1, 8.12, 9.62, 7.62, 6.84, 10.7, 6, 8.86, 17.3, 9.04, 7.47, 6, 6, 6, 6, 7.5, 9.44, 7.9, 8.65, 8.43, 9.26, 12.6, 14.7, 40.8, 46.4, 25.4, 40.3, 28.4, 33.6, 41.8, 719, 1.01e+03, 668, 994, 678, 116, 717, 6, 6, 6 } },
