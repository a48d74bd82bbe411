// Java user program whose functions are the harness's (native) functions.
public class Fwd extends org.coinor.Ipopt {
   public Fwd() { super(); }
   protected native boolean get_bounds_info(int n, double[] x_l, double[] x_u, int m, double[] g_l, double[] g_u);
   protected native boolean get_starting_point(int n, boolean init_x, double[] x, boolean init_z, double[] z_L, double[] z_U, int m, boolean init_lambda, double[] lambda);
   protected native boolean eval_f(int n, double[] x, boolean new_x, double[] obj_value);
   protected native boolean eval_grad_f(int n, double[] x, boolean new_x, double[] grad_f);
   protected native boolean eval_g(int n, double[] x, boolean new_x, int m, double[] g);
   protected native boolean eval_jac_g(int n, double[] x, boolean new_x, int m, int nele_jac, int[] iRow, int[] jCol, double[] values);
   protected native boolean eval_h(int n, double[] x, boolean new_x, double obj_factor, int m, double[] lambda, boolean new_lambda, int nele_hess, int[] iRow, int[] jCol, double[] values);
   public native boolean intermediate_callback(int algorithmmode, int iter, double obj_value, double inf_pr, double inf_du, double mu, double d_norm, double regularization_size, double alpha_du, double alpha_pr, int ls_trials, long ip_data, long ip_cq);
   public native boolean get_scaling_parameters(double[] obj_scaling, int n, double[] x_scaling, int m, double[] g_scaling, boolean[] use_x_g_scaling);
   public native int get_number_of_nonlinear_variables();
   public native boolean get_list_of_nonlinear_variables(int num, int[] pos);
}
