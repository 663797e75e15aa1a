/* Objects behind MPI's predefined handles (the implementation of the message layer is mpishim.c). */
#define O(n) char n[64];
O(ompi_mpi_comm_world) O(ompi_mpi_comm_self) O(ompi_mpi_comm_null) O(ompi_request_null) O(ompi_mpi_op_null) O(ompi_mpi_datatype_null)
O(ompi_mpi_int) O(ompi_mpi_float) O(ompi_mpi_double) O(ompi_mpi_c_float_complex) O(ompi_mpi_c_double_complex) O(ompi_mpi_char) O(ompi_mpi_byte)
O(ompi_mpi_op_sum) O(ompi_mpi_op_min) O(ompi_mpi_op_max) O(ompi_mpi_info_null) O(ompi_mpi_long) O(ompi_mpi_unsigned) O(ompi_mpi_c_complex)
